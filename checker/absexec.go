package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Engine A: abstract interpretation of SSA with inlining.

type res struct {
	st  *state
	v   V
	pan string // reason of a run-time panic
	at  string
}

type callInfo struct {
	kind string // "invoke", "value", "static"
	name string
	fn   *ssa.Function
	recv V
	args []V
	sig  *types.Signature
	in   ssa.Instruction
}

type interp struct {
	w     *World
	hook  func(x *interp, st *state, c *callInfo) ([]res, bool)
	depth int
	steps int
	most  int // steps
	funcs map[*ssa.Function]bool
	sites map[ssa.Instruction]bool
	trace bool
	// stableTies: the order of equal elements after sorting is some fixed
	// function of the input order
	stableTies bool
	concrete   bool            // lengths of the input are fixed: loops are followed exactly
	known      map[string]bool // the keys that are declared
	pick       func() int
	gload      func(x *interp, st *state, g *ssa.Global) V
	memo       map[string][]res
	// cells: states are split by what the integers are relative to the tracked
	// elements, and joins keep only simple relations
	cells    bool
	phases   bool // only split
	deadline time.Time
	late     bool // goroutines run when they are waited for, the last one first
}

func newInterp(w *World) *interp {
	return &interp{w: w, most: maxSteps, funcs: map[*ssa.Function]bool{}, sites: map[ssa.Instruction]bool{}}
}

const maxSteps, maxExactSteps = 400000, 8000

// block order: bodies of loops before what follows them ----------------------

type cfgInfo struct {
	ord  map[*ssa.BasicBlock]int
	head map[*ssa.BasicBlock]bool
}

var cfgCache = map[*ssa.Function]*cfgInfo{}

func cfgOf(fn *ssa.Function) *cfgInfo {
	cacheMu.Lock()
	defer cacheMu.Unlock()
	if c := cfgCache[fn]; c != nil {
		return c
	}
	c := &cfgInfo{map[*ssa.BasicBlock]int{}, map[*ssa.BasicBlock]bool{}}
	loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{} // head -> body
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				c.head[s] = true
				body := loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					loops[s] = body
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	depth := func(from, to *ssa.BasicBlock) int { // number of loops of from left by the edge
		n := 0
		for _, body := range loops {
			if body[from] && !body[to] {
				n++
			}
		}
		return n
	}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		succ := append([]*ssa.BasicBlock{}, b.Succs...)
		sort.SliceStable(succ, func(i, j int) bool { return depth(b, succ[i]) > depth(b, succ[j]) })
		for _, s := range succ {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
		// irreducible or retreating edges: treat their targets as heads
		for i, b := range post {
			c.ord[b] = len(post) - i
		}
		for _, b := range post {
			for _, s := range b.Succs {
				if c.ord[s] <= c.ord[b] {
					c.head[s] = true
				}
			}
		}
	}
	cfgCache[fn] = c
	return c
}

// exec analyses a call of fn in st; the caller's frames stay below.
func (x *interp) exec(fn *ssa.Function, args, binds []V, st *state) []res {
	if fn.Blocks == nil {
		undec("call of %s, whose body is not available", fn)
	}
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 40 {
		undec("call depth exceeded in %s (recursion)", fnName(fn))
	}
	for _, f := range st.frames {
		if f.fn == fn {
			n := 0
			for _, f := range st.frames {
				if f.fn == fn {
					n++
				}
			}
			if n > 3 {
				undec("recursion in %s", fnName(fn))
			}
		}
	}
	x.funcs[fn] = true
	if x.cells && len(cfgOf(fn).head) > 0 {
		return x.memoized(fn, args, binds, st)
	}
	return x.run(fn, args, binds, st)
}

// memoized is run; calls from states that differ in names only share results.
func (x *interp) memoized(fn *ssa.Function, args, binds []V, st *state) []res {
	k := st.clone()
	fr := &frame{fn: fn, env: map[ssa.Value]V{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.env[p] = binds[i]
		}
	}
	k.frames = append(k.frames, fr)
	ls, key := k.slots()
	names := map[int]int{}
	var b strings.Builder
	fmt.Fprintf(&b, "%p %q %v %s\n", fn, k.impr, k.loose, key)
	for _, l := range ls {
		fmt.Fprint(&b, l.C)
		for _, t := range l.T {
			n, ok := names[t.A]
			if !ok {
				n = len(names)
				names[t.A] = n
			}
			fmt.Fprintf(&b, " %d*%d", t.K, n)
		}
		b.WriteByte(';')
	}
	if r, ok := x.memo[b.String()]; ok {
		out := make([]res, len(r))
		for i, o := range r {
			o.st = o.st.clone()
			out[i] = o
		}
		return out
	}
	if debugCalls {
		fmt.Printf("MEMO %s\n%s\n", fn.Name(), b.String())
	}
	out := x.run(fn, args, binds, st)
	keep := make([]res, len(out))
	for i, o := range out {
		o.st = o.st.clone()
		keep[i] = o
	}
	if x.memo == nil {
		x.memo = map[string][]res{}
	}
	x.memo[b.String()] = keep
	return out
}

func (x *interp) run(fn *ssa.Function, args, binds []V, st *state) []res {
	st = st.clone()
	fr := &frame{fn: fn, env: map[ssa.Value]V{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.env[p] = binds[i]
		}
	}
	st.frames = append(st.frames, fr)
	level := len(st.frames)
	steps0 := x.steps
	ci := cfgOf(fn)
	pending := map[*ssa.BasicBlock][]*state{fn.Blocks[0]: {st}}
	type slot struct {
		st   *state
		key  string
		hits int
	}
	table := map[*ssa.BasicBlock][]*slot{}
	var out []res
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for k := range pending {
			if b == nil || ci.ord[k] < ci.ord[b] {
				b = k
			}
		}
		sts := pending[b]
		delete(pending, b)
		if ci.head[b] && x.concrete {
			var next []*state
			for _, s := range sts {
				c, _ := s.canon(false)
				_, key := c.slots()
				dup := false
				for _, sl := range table[b] {
					if sl.key == key && exactSubsumed(sl.st, c) {
						dup = true
						break
					}
				}
				if !dup {
					table[b] = append(table[b], &slot{st: c, key: key})
					if len(table[b]) > 3000 {
						undec("too many states at a loop of %s", fnName(fn))
					}
					next = append(next, c.clone())
				}
			}
			sts = next
		} else if ci.head[b] {
			var next, split []*state
			for _, s := range sts {
				c, _ := s.canon(true)
				if x.cells || x.phases {
					split = append(split, c.splitPhases()...)
				} else {
					split = append(split, c)
				}
			}
			for _, s := range split {
				c, key := s.canon(true)
				done := false
				same := 0
				for _, sl := range table[b] {
					if sl.key == key {
						same++
						if subsumed(sl.st, c) {
							done = true
							break
						}
					}
				}
				if done {
					continue
				}
				for pass := 0; pass < 3 && !done; pass++ {
					if same < passMin[pass] {
						break
					}
					for _, sl := range table[b] {
						if sl.key != key {
							continue
						}
						j := joinStates(sl.st, c, true, sl.hits > widenFrom, pass, x.cells)
						if j == nil {
							continue
						}
						j, jk := j.canon(true)
						sl.hits++
						if ls, _ := j.slots(); len(ls) > 120 {
							undec("state too large at a loop of %s", fnName(fn))
						}
						if debugJoin {
							ls, _ := j.slots()
							fmt.Printf("JOIN %s b%d hits %d slots %d gens %d\nA %v\nB %v\nJ %v\n", fn.Name(), b.Index, sl.hits, len(ls), len(toLinset(ls).gens), sl.st, c, j)
							fmt.Println("KEY", key[strings.LastIndex(key, "\n")+1:], "->", jk[strings.LastIndex(jk, "\n")+1:])
						}
						if sl.hits > widenFrom+16 {
							undec("loop analysis of %s does not converge", fnName(fn))
						}
						sl.st, sl.key = j, jk
						next = append(next, j.clone())
						done = true
						break
					}
				}
				if !done {
					table[b] = append(table[b], &slot{st: c, key: key})
					if len(table[b]) > 400 {
						if debugMany {
							for _, sl := range table[b] {
								fmt.Printf("STATE %s b%d\n%s\n%v\n", fn.Name(), b.Index, sl.key, sl.st)
							}
						}
						undec("too many abstract states at a loop of %s", fnName(fn))
					}
					next = append(next, c.clone())
				}
			}
			sts = next
		} else if len(sts) > 1 {
			sts = dedupeStates(sts)
		}
		for _, s := range sts {
			for _, o := range x.block(b, s, level) {
				if o.ret || o.pan != "" {
					if o.pan == "" {
						o.st.frames = o.st.frames[:level-1]
					}
					out = append(out, res{o.st, o.v, o.pan, o.at})
					continue
				}
				x.steps++
				if x.steps > x.most {
					undec("analysis budget exceeded in %s", fnName(fn))
				}
				t := x.enter(b, o.succ, o.st)
				pending[o.succ] = append(pending[o.succ], t)
			}
		}
	}
	if debugCalls {
		n := ""
		for b, t := range table {
			n += fmt.Sprintf(" b%d:%d", b.Index, len(t))
		}
		fmt.Printf("CALL %*s%s steps %d states%s results %d\n", x.depth, "", fn.Name(), x.steps-steps0, n, len(out))
	}
	if debugCalls && debugMany && len(out) > 25 {
		for _, o := range out {
			fmt.Printf("RESULT %v\n%v\n", o.v, o.st)
		}
	}
	out = dedupeRes(out)
	if x.cells && len(out) > mergeResults && len(st.frames) > 1 {
		out = joinRes(out)
	}
	return out
}

const mergeResults = 6

// joinRes generalises the final states of a function that are alike.
func joinRes(rs []res) []res {
	type slot struct {
		st   *state
		key  string
		hits int
	}
	var out []res
	var ss []*slot
	for _, r := range rs {
		if r.pan != "" {
			out = append(out, r)
			continue
		}
		if r.v != nil {
			r.st.ghost["~ret"] = r.v
		}
		c, k := r.st.canon(true)
		done := false
		for pass := 0; pass < 2 && !done; pass++ {
			for _, s := range ss {
				if s.key != k {
					continue
				}
				if subsumed(s.st, c) {
					done = true
					break
				}
				if j := joinStates(s.st, c, true, false, pass, true); j != nil {
					s.st, s.key = j.canon(true)
					s.hits++
					done = true
					break
				}
			}
		}
		if !done {
			ss = append(ss, &slot{st: c, key: k})
		}
	}
	for _, s := range ss {
		v := s.st.ghost["~ret"]
		delete(s.st.ghost, "~ret")
		out = append(out, res{st: s.st, v: v})
	}
	return out
}

var debugCalls = os.Getenv("VG_CALLS") != ""

func dedupeStates(sts []*state) []*state {
	by := map[string][]*state{}
	var keys []string
	for _, s := range sts {
		c, _ := s.canon(false)
		_, k := c.slotsKey()
		if _, ok := by[k]; !ok {
			keys = append(keys, k)
		}
		dup := false
		for _, o := range by[k] {
			if exactSubsumed(o, c) {
				dup = true
				break
			}
		}
		if !dup {
			var keep []*state
			for _, o := range by[k] {
				if !exactSubsumed(c, o) {
					keep = append(keep, o)
				}
			}
			by[k] = append(keep, c)
		}
	}
	var out []*state
	for _, k := range keys {
		out = append(out, by[k]...)
	}
	return out
}

func (s *state) slotsKey() ([]Lin, string) { return s.slots() }

// exactSubsumed compares states with equal full keys.
func exactSubsumed(a, b *state) bool {
	la, _ := a.slots()
	lb, _ := b.slots()
	if len(la) != len(lb) {
		return false
	}
	return toLinset(la).contains(toLinset(lb))
}

func dedupeRes(rs []res) []res {
	if len(rs) < 2 {
		return rs
	}
	var out []res
	by := map[string][]int{}
	for _, r := range rs {
		if r.pan != "" {
			dup := false
			for _, o := range out {
				dup = dup || o.pan == r.pan && o.at == r.at && (o.st.impr == "") == (r.st.impr == "") && o.st.loose == r.st.loose
			}
			if !dup {
				out = append(out, r)
			}
			continue
		}
		if r.v != nil {
			r.st.ghost["~ret"] = r.v
		}
		c, _ := r.st.canon(false)
		_, k := c.slots()
		dup := false
		for _, i := range by[k] {
			if exactSubsumed(out[i].st, c) {
				dup = true
				break
			}
		}
		if dup {
			continue
		}
		by[k] = append(by[k], len(out))
		out = append(out, res{st: c})
	}
	for i := range out {
		if out[i].pan == "" {
			out[i].v = out[i].st.ghost["~ret"]
			delete(out[i].st.ghost, "~ret")
		}
	}
	return out
}

// enter evaluates the phis of succ and drops dead registers.
func (x *interp) enter(from, to *ssa.BasicBlock, st *state) *state {
	f := st.top()
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	vals := map[ssa.Value]V{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = x.val(st, ph.Edges[pi])
	}
	live := x.w.liveIn(to)
	env := map[ssa.Value]V{}
	for k, v := range f.env {
		if live[k] {
			env[k] = v
		}
	}
	for k, v := range vals {
		env[k] = v
	}
	f.env = env
	return st
}

type bout struct {
	st   *state
	succ *ssa.BasicBlock
	ret  bool
	v    V
	pan  string
	at   string
}

func (x *interp) block(b *ssa.BasicBlock, st *state, level int) []bout {
	type cur struct {
		st *state
		i  int
	}
	var out []bout
	work := []cur{{st, 0}}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		in := b.Instrs[c.i]
		x.sites[in] = true
		x.steps++
		if x.steps > x.most {
			undec("analysis budget exceeded in %s", fnName(b.Parent()))
		}
		if x.steps&63 == 0 {
			if !x.deadline.IsZero() && time.Now().After(x.deadline) {
				undec("time for the analysis is over in %s", fnName(b.Parent()))
			}
			if x.steps > 20000 && memShort.CompareAndSwap(true, false) {
				undec("memory for the analysis is short in %s", fnName(b.Parent()))
			}
		}
		if x.trace {
			fmt.Printf("%*s%s: %v\n", x.depth, "", fnName(b.Parent()), in)
		}
		switch in := in.(type) {
		case *ssa.Phi:
			work = append(work, cur{c.st, c.i + 1})
		case *ssa.Jump:
			out = append(out, bout{st: c.st, succ: b.Succs[0]})
		case *ssa.If:
			v := x.val(c.st, in.Cond)
			switch v := v.(type) {
			case vBool:
				if bool(v) {
					out = append(out, bout{st: c.st, succ: b.Succs[0]})
				} else {
					out = append(out, bout{st: c.st, succ: b.Succs[1]})
				}
			default:
				out = append(out, bout{st: c.st.clone(), succ: b.Succs[0]}, bout{st: c.st, succ: b.Succs[1]})
			}
		case *ssa.Return:
			var v V
			switch len(in.Results) {
			case 0:
			case 1:
				v = x.val(c.st, in.Results[0])
			default:
				t := vTuple{}
				for _, r := range in.Results {
					t = append(t, x.val(c.st, r))
				}
				v = t
			}
			out = append(out, bout{st: c.st, ret: true, v: v})
		case *ssa.Panic:
			out = append(out, bout{st: c.st, pan: "explicit panic", at: x.w.ipos(in)})
		default:
			rs := x.instr(c.st, in)
			for k := len(rs) - 1; k >= 0; k-- {
				r := rs[k]
				if r.pan != "" {
					at := r.at
					if at == "" {
						at = x.w.ipos(in)
					}
					out = append(out, bout{st: r.st, pan: r.pan, at: at})
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					if r.v == nil {
						r.v = vTuple{}
					}
					r.st.top().env[v] = r.v
				}
				work = append(work, cur{r.st, c.i + 1})
			}
		}
	}
	return out
}

func one(st *state, v V) []res        { return []res{{st: st, v: v}} }
func pan(st *state, why string) []res { return []res{{st: st, pan: why}} }
func each(sts []*state, v V) (r []res) {
	for _, s := range sts {
		r = append(r, res{st: s, v: v})
	}
	return
}

// val evaluates an operand.
func (x *interp) val(st *state, v ssa.Value) V {
	switch v := v.(type) {
	case *ssa.Const:
		return constV(v)
	case *ssa.Function:
		return vFunc{fn: v}
	case *ssa.Global:
		return vPtr{obj: x.global(st, v)}
	case *ssa.Builtin:
		return vTerm{op: "builtin " + v.Name()}
	}
	r, ok := st.top().env[v]
	if !ok {
		undec("register %s of %s has no value", v.Name(), fnName(v.Parent()))
	}
	return r
}

func (x *interp) global(st *state, g *ssa.Global) int {
	if id, ok := st.glob[g]; ok {
		return id
	}
	var v V
	if x.gload != nil {
		v = x.gload(x, st, g)
	}
	if v == nil {
		v = app("global", vStr(g.String()))
	}
	id := st.alloc(&obj{kind: 'c', typ: deref(g.Type()), v: v})
	st.heap[id].g = 0
	st.glob[g] = id
	return id
}

func constV(c *ssa.Const) V {
	t := c.Type().Underlying()
	if c.Value == nil {
		if _, ok := t.(*types.Basic); ok && t.(*types.Basic).Kind() == types.UntypedNil {
			return vNil{}
		}
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return vBool(constant.BoolVal(c.Value))
	case constant.String:
		return vStr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n, ok := constant.Int64Val(c.Value); ok && n > -1<<40 && n < 1<<40 {
				return vInt{lc(int(n))}
			}
		}
		return vTop{}
	}
	return vTop{}
}

func isSyncType(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == name
}

func zero(t types.Type) V {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync":
			if n.Obj().Name() == "WaitGroup" {
				return vInt{}
			}
			return vStruct{}
		case "bytes", "strings", "sync/atomic", "bufio":
			if _, ok := n.Underlying().(*types.Struct); ok {
				return vTop{}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vBool(false)
		case u.Info()&types.IsInteger != 0:
			return vInt{}
		case u.Info()&types.IsString != 0:
			return vStr("")
		}
		return vTop{}
	case *types.Struct:
		f := make([]V, u.NumFields())
		for i := range f {
			f[i] = zero(u.Field(i).Type())
		}
		return vStruct{f}
	case *types.Array:
		return vTop{}
	case *types.Tuple:
		var t vTuple
		for i := 0; i < u.Len(); i++ {
			t = append(t, zero(u.At(i).Type()))
		}
		return t
	}
	return vNil{}
}

// memory ---------------------------------------------------------------------

// load reads through a pointer.
func (x *interp) load(st *state, p V, t types.Type) []res {
	switch p := p.(type) {
	case vNil:
		return pan(st, "nil pointer dereference")
	case vPtr:
		return x.loadPath(st, p, t)
	case vTerm:
		if _, ok := t.Underlying().(*types.Struct); ok {
			return one(st, opaqueStruct(p, t))
		}
		return one(st, app("deref", p))
	}
	return one(st, vTop{})
}

func opaqueStruct(p vTerm, t types.Type) V {
	u := t.Underlying().(*types.Struct)
	f := make([]V, u.NumFields())
	for i := range f {
		f[i] = app("field "+u.Field(i).Name(), p)
	}
	return vStruct{f}
}

func getField(v V, i int) V {
	switch v := v.(type) {
	case vStruct:
		if i < len(v.f) {
			return v.f[i]
		}
		return vTop{}
	case vChoice:
		r := V(nil)
		for _, y := range v {
			f := getField(y, i)
			if r == nil {
				r = f
			} else {
				r = joinV(r, f)
			}
		}
		return r
	case vTerm:
		return app(fmt.Sprintf("field %d", i), v)
	}
	return vTop{}
}

func setField(v V, i int, n V) V {
	if s, ok := v.(vStruct); ok && i < len(s.f) {
		f := append([]V{}, s.f...)
		f[i] = n
		return vStruct{f}
	}
	return vTop{}
}

func fieldsOf(v V, path []pstep) V {
	for _, s := range path {
		if s.field < 0 {
			return vTop{}
		}
		v = getField(v, s.field)
	}
	return v
}

func updFields(v V, path []pstep, n V) V {
	if len(path) == 0 {
		return n
	}
	if path[0].field < 0 {
		return vTop{}
	}
	return setField(v, path[0].field, updFields(getField(v, path[0].field), path[1:], n))
}

func (x *interp) loadPath(st *state, p vPtr, t types.Type) []res {
	o := st.heap[p.obj]
	if o == nil {
		undec("dangling pointer")
	}
	if o.kind == 'a' {
		if len(p.path) == 0 {
			return one(st, vTop{})
		}
		var out []res
		for _, e := range x.elem(st, p.obj, p.path[0].idx) {
			v := fieldsOf(e.v, p.path[1:])
			out = append(out, x.inst(e.st, v)...)
		}
		return out
	}
	if o.kind == 'c' {
		return x.inst(st, fieldsOf(o.v, p.path))
	}
	return one(st, vTop{})
}

// inst turns summarised content into a value of its own.
func (x *interp) inst(st *state, v V) []res {
	switch v := v.(type) {
	case vChoice:
		var out []res
		for i, y := range v {
			s := st
			if i+1 < len(v) {
				s = st.clone()
			}
			out = append(out, x.inst(s, y)...)
		}
		return out
	case vTmpl:
		var w []seg
		n := Lin{}
		for _, t := range v.segs {
			l := lc(t.min)
			if !t.exact && x.concrete {
				l = l.addc(x.pick())
			} else if !t.exact {
				l = l.add(fresh())
			}
			w = append(w, seg{t.v, l})
			n = n.add(l)
		}
		id := st.alloc(&obj{kind: 'a', w: w})
		return one(st, vSlice{obj: id, hi: n})
	case vRef:
		id := st.alloc(&obj{kind: 'c', v: v.v})
		return one(st, vPtr{obj: id})
	case vStruct:
		rs := one(st, vStruct{})
		for _, f := range v.f {
			var nx []res
			for _, r := range rs {
				for _, q := range x.inst(r.st, f) {
					nx = append(nx, res{st: q.st, v: vStruct{append(append([]V{}, r.v.(vStruct).f...), q.v)}})
				}
			}
			rs = nx
		}
		return rs
	case vIface:
		var out []res
		for _, r := range x.inst(st, v.v) {
			out = append(out, res{st: r.st, v: vIface{v.t, r.v}})
		}
		return out
	}
	return one(st, v)
}

// elem reads the element at an index of an array object.
func (x *interp) elem(st *state, id int, idx V) []res {
	var out []res
	if i, ok := idx.(vInt); ok {
		for _, c := range st.cut(id, i.l) {
			if c.i < 0 {
				out = append(out, res{st: c.st, pan: "index out of range"})
				continue
			}
			out = append(out, x.elemFrom(c.st, id, c.i)...)
		}
		return out
	}
	// unknown index: any element
	for _, g := range st.heap[id].w {
		for _, s := range st.clone().assumeGE(g.n.addc(-1)) {
			out = append(out, res{st: s.clone(), v: g.v})
		}
	}
	return out
}

// elemFrom is the first element at or after segment i.
func (x *interp) elemFrom(st *state, id, i int) []res {
	w := st.heap[id].w
	var out []res
	for ; i < len(w); i++ {
		n := st.n(w[i].n)
		for _, s := range st.assumeGE(n.addc(-1)) {
			out = append(out, res{st: s.clone(), v: w[i].v})
		}
		z := st.assumeEQ(n)
		if len(z) == 0 {
			return out
		}
		if len(z) > 1 {
			for _, s := range z {
				out = append(out, x.elemFrom(s, id, i+1)...)
			}
			return out
		}
		st = z[0]
	}
	return append(out, res{st: st, pan: "index out of range"})
}

func (x *interp) store(st *state, p V, v V) []res {
	switch p := p.(type) {
	case vNil:
		return pan(st, "nil pointer dereference")
	case vPtr:
		o := st.heap[p.obj]
		if o == nil {
			undec("dangling pointer")
		}
		switch o.kind {
		case 'c':
			if st.g > 0 && o.g < st.g {
				x.arrival(st, fieldsOf(o.v, p.path), v)
			}
			c := st.mut(p.obj)
			c.v = updFields(c.v, p.path, v)
			return one(st, nil)
		case 'a':
			if len(p.path) == 0 {
				undec("store of a whole array")
			}
			i, ok := p.path[0].idx.(vInt)
			if !ok {
				// somewhere: every segment may change
				c := st.mut(p.obj)
				st.imprecise("store at an unknown index")
				for k := range c.w {
					c.w[k].v = joinV(st.tree(c.w[k].v, 0), st.tree(v, 0))
				}
				return one(st, nil)
			}
			var out []res
			for _, c := range st.cut(p.obj, i.l) {
				if c.i < 0 {
					out = append(out, res{st: c.st, pan: "index out of range"})
					continue
				}
				for _, e := range x.splitFirst(c.st, p.obj, c.i) {
					if e.i < 0 {
						out = append(out, res{st: e.st, pan: "index out of range"})
						continue
					}
					ob := e.st.mut(p.obj)
					ob.w[e.i].v = updFields(ob.w[e.i].v, p.path[1:], v)
					ob.w = e.st.normWord(ob.w)
					out = append(out, res{st: e.st})
				}
			}
			return out
		}
	}
	st.imprecise("store through an unknown pointer")
	return one(st, nil)
}

// arrival marks sequences that grow in the order in which goroutines get to
// run: a goroutine replaces a shared slice by a longer one.
func (x *interp) arrival(st *state, old, v V) {
	ns, ok := v.(vSlice)
	if !ok {
		return
	}
	if os, ok := old.(vSlice); ok && !st.eqLin(os.lo, os.hi) {
		if !st.eqLin(os.hi.sub(os.lo), ns.hi.sub(ns.lo)) {
			st.mut(ns.obj).tag = "arrival"
		}
	}
}

// splitFirst isolates the first element at or after segment i.
func (x *interp) splitFirst(st *state, id, i int) []cutRes {
	w := st.heap[id].w
	var out []cutRes
	for ; i < len(w); i++ {
		n := st.n(w[i].n)
		for _, s := range st.assumeGE(n.addc(-1)) {
			s = s.clone()
			o := s.mut(id)
			nw := append([]seg{}, o.w[:i]...)
			nw = append(nw, seg{w[i].v, lc(1)}, seg{w[i].v, s.n(n.addc(-1))})
			nw = append(nw, o.w[i+1:]...)
			o.w = nw
			out = append(out, cutRes{s, i})
		}
		z := st.assumeEQ(n)
		if len(z) == 0 {
			return out
		}
		for _, s := range z[1:] {
			out = append(out, x.splitFirst(s, id, i+1)...)
		}
		st = z[0]
	}
	return append(out, cutRes{st, -1})
}

// unprime replaces the second and later names of a value by its first one:
// symbols that differ only in trailing primes denote the same value.
func unprime(v V) V {
	t, ok := v.(vTerm)
	if !ok {
		return v
	}
	t.op = strings.TrimRight(t.op, "'")
	if len(t.args) > 0 {
		args := make([]V, len(t.args))
		for i, a := range t.args {
			args[i] = unprime(a)
		}
		t.args = args
	}
	return t
}

func (s *state) effV(v V) V {
	if r, ok := v.(vRange); ok {
		return s.eff(r)
	}
	return v
}

// equality -------------------------------------------------------------------

// tri: 1 true, 0 false, -1 unknown
func (x *interp) eqTri(st *state, a, b V) int {
	a, b = unprime(st.effV(st.nv(a))), unprime(st.effV(st.nv(b)))
	switch p := a.(type) {
	case vBool:
		if q, ok := b.(vBool); ok {
			return b2i(p == q)
		}
	case vStr:
		switch q := b.(type) {
		case vStr:
			return b2i(p == q)
		case vTerm:
			return x.eqTri(st, b, a)
		}
	case vNil:
		switch q := b.(type) {
		case vNil:
			return 1
		case vPtr, vMap, vSlice, vIface, vFunc, vChan:
			return 0
		case vTerm:
			if f, ok := st.facts["nil "+vkey(q)]; ok {
				return b2i(f)
			}
			return 0 // opaque components are not nil
		}
	case vPtr:
		switch q := b.(type) {
		case vNil:
			return 0
		case vPtr:
			if vkey(p) == vkey(q) {
				return 1
			}
			if p.obj != q.obj {
				return 0
			}
			return -1
		}
	case vMap, vSlice, vFunc, vChan:
		if isNil(b) {
			return 0
		}
		if vkey(a) == vkey(b) {
			return 1
		}
	case vIface:
		switch q := b.(type) {
		case vNil:
			return 0
		case vIface:
			if !types.Identical(p.t, q.t) {
				return 0
			}
			return x.eqTri(st, p.v, q.v)
		}
	case vStruct:
		if q, ok := b.(vStruct); ok && len(p.f) == len(q.f) {
			r := 1
			for i := range p.f {
				switch x.eqTri(st, p.f[i], q.f[i]) {
				case 0:
					return 0
				case -1:
					r = -1
				}
			}
			return r
		}
	case vInt:
		switch q := b.(type) {
		case vInt:
			d := st.n(p.l.sub(q.l))
			if d.isConst() {
				return b2i(d.C == 0)
			}
			if st.ge0(d.addc(-1)) || st.lt0(d) {
				return 0
			}
			return -1
		case vRange:
			return x.eqTri(st, b, a)
		}
	case vRange:
		if q, ok := b.(vInt); ok {
			if q.l.isConst() && (p.neg || len(p.set) > 0) && (len(p.set) > 0 || p.neg) {
				in := false
				for _, c := range p.set {
					in = in || c == q.l.C
				}
				if p.neg && in {
					return 0
				}
				if !p.neg && !in {
					return 0
				}
				if !p.neg && len(p.set) == 1 {
					return 1
				}
			}
			if p.lo != nil && st.lt0(q.l.sub(*p.lo)) || p.hi != nil && st.lt0(p.hi.sub(q.l)) {
				return 0
			}
		}
	case vTerm:
		switch q := b.(type) {
		case vNil, vIface:
			if isNil(b) {
				return x.eqTri(st, b, a)
			}
			return 0
		case vStr:
			if len(p.args) == 0 {
				if p.op == emptyName {
					return b2i(q == "")
				}
				if q == "" {
					return 0 // symbols are non-empty names; "" is a separate scenario
				}
				if p.class {
					if p.op == clsKey.op && x.known[string(q)] {
						return 0 // the keys that are not declared
					}
					return -1
				}
			}
			if f, ok := st.facts["eq "+vkey(p)+" "+vkey(q)]; ok {
				return b2i(f)
			}
			return -1
		case vTerm:
			ca, cb := termClass(p), termClass(q)
			if !ca && !cb && vkey(p) == vkey(q) {
				return 1
			}
			if len(p.args) == 0 && len(q.args) == 0 {
				if p.op != q.op {
					if f, ok := st.facts["eq "+p.op+" "+q.op]; ok {
						return b2i(f)
					}
					return 0 // distinct symbols, disjoint classes
				}
				return -1
			}
			if p.op == q.op && len(p.args) == len(q.args) && injective[p.op] {
				r := 1
				for i := range p.args {
					switch x.eqTri(st, p.args[i], q.args[i]) {
					case 0:
						return 0
					case -1:
						r = -1
					}
				}
				return r
			}
			if f, ok := st.facts["eq "+vkey(p)+" "+vkey(q)]; ok {
				return b2i(f)
			}
			if injective[p.op] && injective[q.op] && p.op != q.op {
				return 0
			}
		}
	}
	return -1
}

// constructors of opaque objects: equal only for equal arguments
var injective = map[string]bool{"index": true, "newindex": true, "doc": true}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func termClass(v V) bool {
	c := false
	scanV(v, func(x V) {
		if t, ok := x.(vTerm); ok && t.class {
			c = true
		}
	})
	return c
}

// eq splits the state by a == b.
func (x *interp) eq(st *state, a, b V) (yes, no []*state) {
	switch x.eqTri(st, a, b) {
	case 1:
		return []*state{st}, nil
	case 0:
		return nil, []*state{st}
	}
	if p, ok := a.(vInt); ok {
		if q, ok := b.(vInt); ok {
			lt, eq, gt := st.cmp(p.l, q.l)
			return eq, append(append([]*state{}, lt...), gt...)
		}
	}
	if p, ok := a.(vStruct); ok {
		if q, ok := b.(vStruct); ok && len(p.f) == len(q.f) {
			cur := []*state{st}
			for i := range p.f {
				var nx []*state
				for _, s := range cur {
					y, n := x.eq(s, p.f[i], q.f[i])
					nx = append(nx, y...)
					no = append(no, n...)
				}
				cur = nx
			}
			return cur, no
		}
	}
	if p, ok := a.(vIface); ok {
		if q, ok := b.(vIface); ok {
			return x.eq(st, p.v, q.v)
		}
	}
	n := st.clone()
	if ta, ok := a.(vTerm); ok && !termClass(a) {
		if _, isT := b.(vTerm); (isT || isStr(b)) && !termClass(b) {
			tb := b
			ka, kb := vkey(unprime(st.nv(ta))), vkey(unprime(st.nv(tb)))
			k1, k2 := "eq "+ka+" "+kb, "eq "+kb+" "+ka
			st.facts[k1], st.facts[k2] = true, true
			n.facts[k1], n.facts[k2] = false, false
		}
	}
	return []*state{st}, []*state{n}
}

// emptyName is the symbol of the empty string where it is a tracked name.
const emptyName = "<empty>"

func isStr(v V) bool { _, ok := v.(vStr); return ok }

// lenOf is the length of a slice, string, map or channel value.
func (x *interp) lenOf(st *state, v V) V {
	switch v := v.(type) {
	case vNil:
		return vInt{}
	case vSlice:
		return vInt{st.n(v.hi.sub(v.lo))}
	case vStr:
		return vInt{lc(len(v))}
	case vText:
		return x.lenOf(st, v.s)
	case vMap:
		o := st.heap[v.obj]
		l := Lin{}
		for _, e := range o.ents {
			if e.ok {
				l = l.addc(1)
			}
		}
		for _, r := range o.rest {
			l = l.add(st.n(r.n))
		}
		return vInt{st.n(l)}
	case vChan:
		return vInt{st.wlen(st.heap[v.obj].w)}
	case vTerm:
		if len(v.args) == 0 && !v.class {
			if v.op == emptyName {
				return vInt{}
			}
			if l, ok := st.ghost["len "+v.op]; ok {
				return l
			}
			one := lc(1)
			return vRange{neg: true, lo: &one}
		}
		if len(v.args) == 0 {
			one := lc(1)
			return vRange{neg: true, lo: &one}
		}
	}
	z := Lin{}
	return vRange{neg: true, lo: &z}
}

func (x *interp) binop(st *state, op token.Token, a, b V) []res {
	switch op {
	case token.EQL, token.NEQ:
		y, n := x.eq(st, a, b)
		return append(each(y, vBool(op == token.EQL)), each(n, vBool(op == token.NEQ))...)
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if op == token.GTR || op == token.LEQ {
			a, b = b, a
		}
		neg := op == token.LEQ || op == token.GEQ
		y, n := x.lessV(st, a, b)
		return append(each(y, vBool(!neg)), each(n, vBool(neg))...)
	case token.ADD, token.SUB:
		p, ok1 := a.(vInt)
		q, ok2 := b.(vInt)
		if ok1 && ok2 {
			if op == token.ADD {
				return one(st, vInt{st.n(p.l.add(q.l))})
			}
			return one(st, vInt{st.n(p.l.sub(q.l))})
		}
		if r, ok := a.(vRange); ok && ok2 {
			s := vRange{neg: true}
			r = st.eff(r)
			d := q.l
			if op == token.SUB {
				d = d.mul(-1)
			}
			if r.lo != nil {
				l := r.lo.add(d)
				s.lo = &l
			}
			if r.hi != nil {
				l := r.hi.add(d)
				s.hi = &l
			}
			return one(st, s)
		}
		if s, ok := a.(vStr); ok && op == token.ADD {
			if t, ok := b.(vStr); ok {
				return one(st, s+t)
			}
		}
		if isStringy(a) && isStringy(b) && op == token.ADD {
			if termDepth(a) < 5 && termDepth(b) < 5 {
				return one(st, app("concat", a, b))
			}
			return one(st, vTop{})
		}
		return one(st, vRange{neg: true})
	case token.MUL:
		p, ok1 := a.(vInt)
		q, ok2 := b.(vInt)
		if ok1 && ok2 {
			p.l, q.l = st.n(p.l), st.n(q.l)
			if p.l.isConst() {
				return one(st, vInt{q.l.mul(p.l.C)})
			}
			if q.l.isConst() {
				return one(st, vInt{p.l.mul(q.l.C)})
			}
		}
		return one(st, vRange{neg: true})
	case token.QUO, token.REM:
		p, ok1 := a.(vInt)
		q, ok2 := b.(vInt)
		if ok2 && st.n(q.l).isConst() && st.n(q.l).C == 0 {
			return pan(st, "integer division by zero")
		}
		if ok1 && ok2 && st.n(p.l).isConst() && st.n(q.l).isConst() {
			if op == token.QUO {
				return one(st, vInt{lc(st.n(p.l).C / st.n(q.l).C)})
			}
			return one(st, vInt{lc(st.n(p.l).C % st.n(q.l).C)})
		}
		if ok2 && !st.n(q.l).isConst() {
			y, n := x.eq(st, b, vInt{})
			out := each(n, vRange{neg: true})
			for _, s := range y {
				out = append(out, res{st: s, pan: "integer division by zero"})
			}
			return out
		}
		return one(st, vRange{neg: true})
	case token.AND, token.OR, token.XOR:
		p, ok1 := a.(vBool)
		q, ok2 := b.(vBool)
		if ok1 && ok2 {
			switch op {
			case token.AND:
				return one(st, p && q)
			case token.OR:
				return one(st, p || q)
			}
			return one(st, vBool(p != q))
		}
		pi, ok1 := a.(vInt)
		qi, ok2 := b.(vInt)
		if ok1 && ok2 && st.n(pi.l).isConst() && st.n(qi.l).isConst() {
			m, n := st.n(pi.l).C, st.n(qi.l).C
			switch op {
			case token.AND:
				return one(st, vInt{lc(m & n)})
			case token.OR:
				return one(st, vInt{lc(m | n)})
			}
			return one(st, vInt{lc(m ^ n)})
		}
		return one(st, vRange{neg: true})
	case token.SHL, token.SHR, token.AND_NOT:
		return one(st, vRange{neg: true})
	}
	return one(st, vTop{})
}

func termDepth(v V) int {
	t, ok := v.(vTerm)
	if !ok {
		return 0
	}
	d := 0
	for _, a := range t.args {
		d = max(d, termDepth(a))
	}
	return d + 1
}

func isStringy(v V) bool {
	switch v.(type) {
	case vStr, vTerm, vText:
		return true
	}
	return false
}

// lessV splits by a < b.
func (x *interp) lessV(st *state, a, b V) (yes, no []*state) {
	a, b = st.effV(a), st.effV(b)
	switch p := a.(type) {
	case vInt:
		switch q := b.(type) {
		case vInt:
			return st.less(p.l, q.l)
		case vRange:
			if q.hi != nil && st.ge0(p.l.sub(*q.hi)) {
				return nil, []*state{st}
			}
			if q.lo != nil && st.ge0(q.lo.sub(p.l).addc(-1)) {
				return []*state{st}, nil
			}
		}
	case vRange:
		switch q := b.(type) {
		case vInt:
			if p.hi != nil && st.ge0(q.l.sub(*p.hi).addc(-1)) {
				return []*state{st}, nil
			}
			if p.lo != nil && st.ge0(p.lo.sub(q.l)) {
				return nil, []*state{st}
			}
		case vRange:
			if p.hi != nil && q.lo != nil && st.ge0(q.lo.sub(*p.hi).addc(-1)) {
				return []*state{st}, nil
			}
			if p.lo != nil && q.hi != nil && st.ge0(p.lo.sub(*q.hi)) {
				return nil, []*state{st}
			}
		}
	case vStr:
		if q, ok := b.(vStr); ok {
			if p < q {
				return []*state{st}, nil
			}
			return nil, []*state{st}
		}
		return x.lessTerm(st, a, b)
	case vTerm:
		return x.lessTerm(st, a, b)
	}
	return []*state{st}, []*state{st.clone()}
}

func (x *interp) lessTerm(st *state, a, b V) (yes, no []*state) {
	if !isStringy(a) || !isStringy(b) {
		return []*state{st}, []*state{st.clone()}
	}
	if x.eqTri(st, a, b) == 1 {
		return nil, []*state{st}
	}
	empty := func(v V) bool {
		t, ok := v.(vTerm)
		return ok && t.op == emptyName || v == vStr("")
	}
	switch {
	case empty(b):
		return nil, []*state{st}
	case empty(a) && x.eqTri(st, a, b) == 0:
		return []*state{st}, nil
	}
	ka, kb := vkey(unprime(st.nv(a))), vkey(unprime(st.nv(b)))
	if f, ok := st.facts["lt "+ka+" "+kb]; ok {
		if f {
			return []*state{st}, nil
		}
		return nil, []*state{st}
	}
	if f, ok := st.facts["lt "+kb+" "+ka]; ok {
		if f {
			return nil, []*state{st}
		}
		if x.eqTri(st, a, b) == 0 {
			return []*state{st}, nil
		}
	}
	n := st.clone()
	if !termClass(a) && !termClass(b) {
		st.facts["lt "+ka+" "+kb] = true
		n.facts["lt "+ka+" "+kb] = false
	}
	return []*state{st}, []*state{n}
}

// dump renders a state for messages.
func (s *state) String() string {
	c := s.clone()
	var b strings.Builder
	var ids []int
	for id := range c.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var gs []string
	for k := range c.ghost {
		gs = append(gs, k)
	}
	sort.Strings(gs)
	for _, k := range gs {
		fmt.Fprintf(&b, "  $%s = %s\n", k, vkey(c.nv(c.ghost[k])))
	}
	for _, f := range c.frames {
		fmt.Fprintf(&b, "  frame %s\n", f.fn)
		for k, v := range f.env {
			fmt.Fprintf(&b, "    %s = %s\n", k.Name(), vkey(c.nv(v)))
		}
	}
	for _, id := range ids {
		o := c.heap[id]
		fmt.Fprintf(&b, "  @%d %c %s", id, o.kind, o.tag)
		if o.v != nil {
			fmt.Fprintf(&b, " v=%s", vkey(c.nv(o.v)))
		}
		for _, g := range o.w {
			fmt.Fprintf(&b, " [%s x %s]", vkey(c.nv(g.v)), c.n(g.n))
		}
		for _, e := range o.ents {
			if e.ok {
				fmt.Fprintf(&b, " <%s: %s>", vkey(c.nv(e.k)), vkey(c.nv(e.v)))
			} else {
				fmt.Fprintf(&b, " <%s absent>", vkey(c.nv(e.k)))
			}
		}
		for _, e := range o.rest {
			fmt.Fprintf(&b, " ~<%s: %s x %s>", vkey(e.k), vkey(e.v), c.n(e.n))
		}
		b.WriteByte('\n')
	}
	fmt.Fprintf(&b, "  facts %v notes %v impr %q\n", c.facts, c.notes, c.impr)
	return b.String()
}

// passMin is the number of states of one shape from which on each level of
// generalisation is tried.
var passMin = [3]int{0, 6, 40}
