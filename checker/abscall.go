package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (x *interp) callee(st *state, c *ssa.CallCommon) (V, []V) {
	fn := x.val(st, c.Value)
	var args []V
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	return fn, args
}

func (x *interp) call(st *state, c *ssa.CallCommon, in ssa.Instruction) []res {
	fn, args := x.callee(st, c)
	// registers that are not needed after the call do not take part in merging
	if f := st.top(); len(f.env) > 8 || x.cells {
		live := x.liveAfter(in)
		for k := range f.env {
			if !live[k] {
				delete(f.env, k)
			}
		}
	}
	return x.invoke(st, c, fn, args, in)
}

var liveCache = map[ssa.Instruction]map[ssa.Value]bool{}

func (x *interp) liveAfter(in ssa.Instruction) map[ssa.Value]bool {
	cacheMu.Lock()
	l, ok := liveCache[in]
	cacheMu.Unlock()
	if ok {
		return l
	}
	b := in.Block()
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range x.w.liveIn(s) {
			live[v] = true
		}
		for _, i := range s.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for _, e := range ph.Edges {
				if isReg(e) {
					live[e] = true
				}
			}
		}
	}
	for k := len(b.Instrs) - 1; k >= 0; k-- {
		i := b.Instrs[k]
		if i == in {
			break
		}
		for _, op := range i.Operands(nil) {
			if op != nil && *op != nil && isReg(*op) {
				live[*op] = true
			}
		}
	}
	cacheMu.Lock()
	liveCache[in] = live
	cacheMu.Unlock()
	return live
}

func (x *interp) invoke(st *state, c *ssa.CallCommon, fn V, args []V, in ssa.Instruction) []res {
	if c.IsInvoke() {
		return x.invokeMethod(st, fn, c.Method, args, in)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, b.Name(), c, args, in)
	}
	return x.callValue(st, fn, c.Signature(), args, in)
}

func (x *interp) invokeMethod(st *state, recv V, m *types.Func, args []V, in ssa.Instruction) []res {
	switch r := recv.(type) {
	case vNil:
		return pan(st, "call of a method of a nil interface")
	case vIface:
		f := x.w.lookupMethod(r.t, m.Pkg(), m.Name())
		if f == nil {
			undec("method %s of %s not found", m.Name(), r.t)
		}
		return x.static(st, f, nil, append([]V{r.v}, args...), in)
	}
	ci := &callInfo{kind: "invoke", name: m.Name(), recv: recv, args: args, sig: m.Type().(*types.Signature), in: in}
	if x.hook != nil {
		if rs, ok := x.hook(x, st, ci); ok {
			return rs
		}
	}
	if t, ok := recv.(vTerm); ok {
		if m.Name() == "Error" || m.Name() == "String" {
			return one(st, app("text of", t))
		}
	}
	if _, ok := recv.(vTop); ok {
		return one(st, topOf(ci.sig.Results()))
	}
	undec("call of %s on an unknown component %s at %s", m.Name(), vkey(recv), x.w.ipos(in))
	return nil
}

func topOf(t *types.Tuple) V {
	switch t.Len() {
	case 0:
		return vTuple{}
	case 1:
		return topT(t.At(0).Type())
	}
	r := vTuple{}
	for i := 0; i < t.Len(); i++ {
		r = append(r, topT(t.At(i).Type()))
	}
	return r
}

func topT(t types.Type) V {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return vRange{neg: true}
	}
	if t.String() == "error" {
		return vNil{}
	}
	return vTop{}
}

func (x *interp) callValue(st *state, fn V, sig *types.Signature, args []V, in ssa.Instruction) []res {
	switch f := fn.(type) {
	case vFunc:
		return x.static(st, f.fn, f.binds, args, in)
	case vNil:
		return pan(st, "call of a nil function")
	}
	ci := &callInfo{kind: "value", recv: fn, args: args, sig: sig, in: in}
	if x.hook != nil {
		if rs, ok := x.hook(x, st, ci); ok {
			return rs
		}
	}
	undec("call of an unknown function %s at %s", vkey(fn), x.w.ipos(in))
	return nil
}

func (x *interp) static(st *state, fn *ssa.Function, binds, args []V, in ssa.Instruction) []res {
	ci := &callInfo{kind: "static", name: fn.String(), fn: fn, args: args, sig: fn.Signature, in: in}
	if x.hook != nil {
		if rs, ok := x.hook(x, st, ci); ok {
			return rs
		}
	}
	pkg := ""
	if p := fnPkg(fn); p != nil {
		pkg = p.Path()
	}
	if pkg == "sync" {
		return x.syncCall(st, fn, args, in)
	}
	if opaqueSort(fn) && (pkg == "slices" || pkg == "sort") || pkg == "sort" {
		return x.sortCall(st, fn, args, in)
	}
	own := strings.HasPrefix(pkg, "github.com/sonirico/visigoth")
	if fn.Blocks != nil && (own || transparent[pkg] || fn.Synthetic != "") {
		return x.exec(fn, args, binds, st)
	}
	return x.external(st, fn, pkg, args, in)
}

// purePkgs: calls have no effect on the analysed state and depend on their
// arguments only.
var purePkgs = map[string]bool{
	"fmt": true, "strings": true, "strconv": true, "errors": true, "unicode": true, "unicode/utf8": true,
	"bytes": true, "math": true, "hash/fnv": true, "math/bits": true, "time": true, "hash": true,
	"github.com/kljensen/snowball/spanish": true, "github.com/kljensen/snowball": true,
	"github.com/kljensen/snowball/snowballword": true, "math/rand": true, "math/rand/v2": true, "log": true, "runtime": true,
	"golang.org/x/text/unicode/norm": true, "context": true, "log/slog": true, "internal/bytealg": true, "unsafe": true,
}

func (x *interp) external(st *state, fn *ssa.Function, pkg string, args []V, in ssa.Instruction) []res {
	name := fn.RelString(nil)
	switch name {
	case "maps.clone", "maps.Clone":
		a := args[0]
		if i, ok := a.(vIface); ok {
			a = i.v
		}
		if m, ok := a.(vMap); ok {
			o := *st.heap[m.obj]
			id := st.alloc(&o)
			if i, ok := args[0].(vIface); ok {
				return one(st, vIface{i.t, vMap{id}})
			}
			return one(st, vMap{id})
		}
		return one(st, args[0])
	case "strings.ContainsRune":
		if t, ok := args[0].(vStr); ok {
			if rs, ok := x.inConst(st, t, args[1]); ok {
				return rs
			}
		}
	case "unicode/utf8.RuneCount", "unicode/utf8.RuneCountInString":
		if x.concrete && isText(args[0]) {
			var out []res
			for _, c := range x.runes(st, args[0]) {
				out = append(out, res{st: c.st, v: vInt{c.n}})
			}
			return out
		}
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
		if isText(args[0]) {
			v := args[0]
			if t, ok := v.(vText); ok {
				v = t.s
			}
			more, done := x.runeAt(st, v.(vSlice), Lin{})
			var out []res
			for _, d := range done {
				out = append(out, res{st: d, v: vTuple{vInt{lc(utf8.RuneError)}, vInt{}}})
			}
			for _, m := range more {
				out = append(out, res{st: m.st, v: vTuple{m.r, vInt{m.n}}})
			}
			return out
		}
	case "strings.Clone":
		return one(st, args[0])
	case "fmt.Errorf", "errors.New":
		return one(st, app("error"))
	case "strings.Compare":
		var out []res
		y, n := x.eq(st, args[0], args[1])
		for _, q := range y {
			out = append(out, res{st: q, v: vInt{}})
		}
		for _, q := range n {
			for _, b := range x.binop(q, token.LSS, args[0], args[1]) {
				switch less, ok := b.v.(vBool); {
				case !ok:
					b.st.imprecise("an unknown comparison of texts")
					out = append(out, res{st: b.st, v: vRange{neg: true}})
				case bool(less):
					out = append(out, res{st: b.st, v: vInt{lc(-1)}})
				default:
					out = append(out, res{st: b.st, v: vInt{lc(1)}})
				}
			}
		}
		return out
	case "strings.EqualFold":
		if x.eqTri(st, args[0], args[1]) == 1 {
			return one(st, vBool(true))
		}
		y := st.clone()
		return []res{{st: st, v: vBool(true)}, {st: y, v: vBool(false)}}
	}
	if !purePkgs[pkg] {
		undec("call of %s, which is not modelled, at %s", name, x.w.ipos(in))
	}
	switch pkg {
	case "time", "math/rand", "math/rand/v2":
		st.note("uses " + pkg)
		return one(st, topOf(fn.Signature.Results()))
	}
	rs := fn.Signature.Results()
	for i, a := range args {
		for _, b := range args[:i] {
			if _, ok := a.(vTerm); ok && x.eqTri(st, a, b) == 1 {
				st.imprecise("a relation of a value with itself")
			}
		}
	}
	scalar := rs.Len() == 1 && fn.Signature.Recv() == nil && len(args) > 0
	for _, a := range args {
		switch v := a.(type) {
		case vStr, vTerm, vBool:
		case vInt:
			scalar = scalar && st.n(v.l).isConst()
		case vRange:
		default:
			scalar = false
		}
	}
	if scalar {
		if t, ok := rs.At(0).Type().Underlying().(*types.Basic); ok {
			term := app(shortCall(name), args...)
			for _, a := range args {
				if _, ok := a.(vRange); ok {
					return x.topRes(st, rs)
				}
			}
			switch {
			case t.Info()&types.IsBoolean != 0:
				return x.pred(st, term)
			case t.Info()&types.IsString != 0:
				if termDepth(term) > 5 {
					return one(st, vTop{})
				}
				return one(st, term)
			}
		}
	}
	return x.topRes(st, rs)
}

// isText: a text of known characters.
func isText(v V) bool {
	switch v := v.(type) {
	case vText:
		_, ok := v.s.(vSlice)
		return ok
	case vSlice:
		return true
	}
	return false
}

func (x *interp) topRes(st *state, rs *types.Tuple) []res {
	if rs.Len() == 1 {
		if b, ok := rs.At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return []res{{st: st, v: vBool(true)}, {st: st.clone(), v: vBool(false)}}
		}
	}
	return one(st, topOf(rs))
}

func shortCall(n string) string {
	switch n {
	case "strings.ToLower":
		return "lower"
	case "github.com/kljensen/snowball/spanish.Stem":
		return "stem"
	}
	return n
}

// pred is an uninterpreted predicate of fixed values.
func (x *interp) pred(st *state, t vTerm) []res {
	k := "holds " + vkey(unprime(st.nv(t)))
	if v, ok := st.facts[k]; ok {
		return one(st, vBool(v))
	}
	n := st.clone()
	if !termClass(t) {
		st.facts[k] = true
		n.facts[k] = false
	}
	return []res{{st: st, v: vBool(true)}, {st: n, v: vBool(false)}}
}

func (s *state) note(n string) {
	for _, m := range s.notes {
		if m == n {
			return
		}
	}
	s.notes = append(append([]string{}, s.notes...), n)
}

func (x *interp) syncCall(st *state, fn *ssa.Function, args []V, in ssa.Instruction) []res {
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		if n, ok := types.Unalias(deref(r.Type())).(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	switch recv {
	case "Mutex", "RWMutex":
		switch fn.Name() {
		case "Lock", "Unlock", "RLock", "RUnlock":
			return one(st, vTuple{})
		case "TryLock", "TryRLock":
			return []res{{st: st, v: vBool(true)}, {st: st.clone(), v: vBool(false)}}
		}
	case "WaitGroup":
		rs := x.load(st, args[0], nil)
		if len(rs) != 1 {
			undec("wait group in an unknown place")
		}
		if fn.Name() == "Wait" && x.late {
			var out []res
			for _, d := range st.frames[0].defers {
				if !d.spawned {
					continue
				}
				for _, r := range x.runSpawned(st) {
					if r.pan != "" {
						out = append(out, r)
						continue
					}
					out = append(out, x.syncCall(r.st, fn, args, in)...)
				}
				return out
			}
		}
		cnt, ok := rs[0].v.(vInt)
		if !ok {
			undec("wait group with an unknown count at %s", x.w.ipos(in))
		}
		add := func(st *state, d Lin) []res {
			n := st.n(cnt.l.add(d))
			var out []res
			if !st.ge0(n) {
				for _, s := range st.clone().assumeGE(n.mul(-1).addc(-1)) {
					out = append(out, res{st: s, pan: "sync: negative WaitGroup counter"})
				}
			}
			for _, s := range st.assumeGE(n) {
				for _, r := range x.store(s, args[0], vInt{s.n(n)}) {
					r.v = vTuple{}
					out = append(out, r)
				}
			}
			return out
		}
		switch fn.Name() {
		case "Add":
			d, ok := args[1].(vInt)
			if !ok {
				undec("wait group increment of unknown size at %s", x.w.ipos(in))
			}
			return add(st, d.l)
		case "Done":
			return add(st, lc(-1))
		case "Go":
			st.g++
			g := st.g
			var out []res
			for _, r := range x.callValue(st, args[1], nil, nil, in) {
				if r.pan == "" {
					r.st.g = g - 1
				}
				r.v = vTuple{}
				out = append(out, r)
			}
			return out
		case "Wait":
			var out []res
			for _, s := range st.clone().assumeGE(st.n(cnt.l).addc(-1)) {
				out = append(out, res{st: s, pan: "waits forever: the wait group still counts unfinished work"})
			}
			for _, s := range st.assumeEQ(cnt.l) {
				out = append(out, res{st: s, v: vTuple{}})
			}
			return out
		}
	case "Once":
		if fn.Name() == "Do" {
			k := "once " + vkey(args[0])
			if st.facts[k] {
				return one(st, vTuple{})
			}
			st.facts[k] = true
			var out []res
			for _, r := range x.callValue(st, args[1], nil, nil, in) {
				r.v = vTuple{}
				out = append(out, r)
			}
			return out
		}
	case "Pool":
		if fn.Name() == "Put" {
			return one(st, vTuple{})
		}
	}
	undec("sync primitive %s is not modelled (at %s)", fnName(fn), x.w.ipos(in))
	return nil
}

func (x *interp) builtin(st *state, name string, c *ssa.CallCommon, args []V, in ssa.Instruction) []res {
	switch name {
	case "len":
		return one(st, x.lenOf(st, args[0]))
	case "cap":
		if s, ok := args[0].(vSlice); ok {
			if s.full {
				return one(st, vInt{st.n(s.hi.sub(s.lo))})
			}
			return one(st, vInt{st.n(st.wlen(st.heap[s.obj].w).sub(s.lo))})
		}
		if isNil(args[0]) {
			return one(st, vInt{})
		}
		z := Lin{}
		return one(st, vRange{neg: true, lo: &z})
	case "append":
		if len(args) == 1 {
			return one(st, args[0])
		}
		return x.doAppend(st, args[0], args[1])
	case "copy":
		return x.doCopy(st, args[0], args[1])
	case "delete":
		return x.mapDelete(st, args[0], args[1])
	case "clear":
		switch a := args[0].(type) {
		case vMap:
			o := st.mut(a.obj)
			for i := range o.ents {
				o.ents[i].ok, o.ents[i].v = false, nil
			}
			o.rest = nil
			return one(st, vTuple{})
		case vSlice:
			el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			return x.put(st, a.obj, a.lo, []seg{{zero(el), st.n(a.hi.sub(a.lo))}})
		case vNil:
			return one(st, vTuple{})
		}
	case "close":
		if ch, ok := args[0].(vChan); ok {
			o := st.mut(ch.obj)
			if b, ok := o.v.(vBool); ok && bool(b) {
				return pan(st, "close of closed channel")
			}
			o.v = vBool(true)
			return one(st, vTuple{})
		}
	case "min", "max":
		cur := []res{{st: st, v: args[0]}}
		for _, a := range args[1:] {
			var nx []res
			for _, r := range cur {
				y, n := x.lessV(r.st, r.v, a)
				if name == "max" {
					y, n = n, y
				}
				nx = append(nx, each(y, r.v)...)
				nx = append(nx, each(n, a)...)
			}
			cur = nx
		}
		return cur
	case "print", "println":
		return one(st, vTuple{})
	case "recover":
		return one(st, vNil{})
	case "panic":
		return pan(st, "explicit panic")
	case "ssa:wrapnilchk":
		if isNil(args[0]) {
			return pan(st, "nil pointer dereference")
		}
		return one(st, args[0])
	}
	undec("builtin %s on %s at %s", name, fmt.Sprint(args), x.w.ipos(in))
	return nil
}

// sorting ----------------------------------------------------------------------

// sortCall models the sorting functions: the elements are permuted; the order
// of any two tracked elements is what the comparison says.
func (x *interp) sortCall(st *state, fn *ssa.Function, args []V, in ssa.Instruction) []res {
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
	}
	var s V
	var less func(st *state, sl vSlice, i, j Lin, a, b V) []res
	stable := false
	switch name {
	case "Sort", "Stable":
		i, ok := args[0].(vIface)
		if !ok { // slices.Sort
			s = args[0]
			break
		}
		stable = name == "Stable"
		t, v := i.t, i.v
		for {
			// sort.Reverse and similar wrappers are structs around the data
			if st, ok := v.(vStruct); ok && len(st.f) == 1 {
				if in, ok := st.f[0].(vIface); ok {
					v = in.v
					continue
				}
			}
			break
		}
		s = v
		m := x.w.lookupMethod(t, nil, "Less")
		if m == nil {
			undec("no Less method on %s", t)
		}
		less = func(st *state, sl vSlice, a, b Lin, _, _ V) []res {
			return x.static(st, m, nil, []V{args[0].(vIface).v, vInt{a.sub(sl.lo)}, vInt{b.sub(sl.lo)}}, in)
		}
	case "Slice", "SliceStable":
		i, ok := args[0].(vIface)
		if !ok {
			undec("sort of %s", vkey(args[0]))
		}
		s = i.v
		stable = name == "SliceStable"
		less = func(st *state, sl vSlice, a, b Lin, _, _ V) []res {
			return x.callValue(st, args[1], nil, []V{vInt{a.sub(sl.lo)}, vInt{b.sub(sl.lo)}}, in)
		}
	case "SortFunc", "SortStableFunc":
		s = args[0]
		stable = name == "SortStableFunc"
		less = func(st *state, sl vSlice, _, _ Lin, a, b V) []res {
			var out []res
			for _, r := range x.callValue(st, args[1], nil, []V{a, b}, in) {
				if r.pan != "" {
					out = append(out, r)
					continue
				}
				y, n := x.lessV(r.st, r.v, vInt{})
				out = append(out, each(y, vBool(true))...)
				out = append(out, each(n, vBool(false))...)
			}
			return out
		}
	case "Strings", "Ints":
		s = args[0]
	case "SliceIsSorted", "IsSorted", "StringsAreSorted", "IntsAreSorted":
		return []res{{st: st, v: vBool(true)}, {st: st.clone(), v: vBool(false)}}
	case "Search", "SearchInts", "SearchStrings", "Find":
		undec("binary search at %s", x.w.ipos(in))
	default:
		undec("sorting function %s is not modelled (at %s)", fnName(fn), x.w.ipos(in))
	}
	if less == nil {
		less = func(st *state, _ vSlice, _, _ Lin, a, b V) []res {
			y, n := x.lessV(st, a, b)
			return append(each(y, vBool(true)), each(n, vBool(false))...)
		}
	}
	sl, ok := s.(vSlice)
	if !ok {
		if isNil(s) {
			return one(st, vTuple{})
		}
		undec("sort of %s", vkey(s))
	}
	var out []res
	args = append([]V{}, args...)
	orig := append([]V{}, args...)
	for _, t := range x.take(st, sl) {
		copy(args, orig)
		out = append(out, x.sortWord(t.st, args, sl, t.w, less, stable)...)
	}
	return out
}

func (x *interp) sortWord(st *state, args []V, sl vSlice, w []seg, less func(*state, vSlice, Lin, Lin, V, V) []res, stable bool) []res {
	type item struct {
		g   seg
		pos Lin
	}
	var foc []item
	noise := Lin{}
	var nv V
	cum := sl.lo
	for _, g := range w {
		if st.isFocus(g.v) {
			foc = append(foc, item{g, cum})
		} else {
			noise = noise.add(g.n)
			if nv == nil {
				nv = st.tree(g.v, 0)
			} else {
				nv = joinV(nv, st.tree(g.v, 0))
			}
		}
		cum = cum.add(st.n(g.n))
	}
	if len(foc) > 3 {
		undec("sort of %d tracked elements", len(foc))
	}
	finish := func(st *state, order []item) []res {
		var nw []seg
		sum := Lin{}
		if nv != nil {
			l := fresh()
			sum = l
			nw = append(nw, seg{nv, l})
		}
		for _, f := range order {
			nw = append(nw, f.g)
			if nv != nil {
				l := fresh()
				sum = sum.add(l)
				nw = append(nw, seg{nv, l})
			}
		}
		var out []res
		for _, s := range st.assumeEQ(noise.sub(sum)) {
			for _, r := range x.put(s.clone(), sl.obj, sl.lo, s.normWord(nw)) {
				if r.pan == "" {
					o := r.st.mut(sl.obj)
					o.tag = ""
				}
				r.v = vTuple{}
				out = append(out, r)
			}
		}
		return out
	}
	if len(foc) < 2 {
		return finish(st, foc)
	}
	// decide every pair, then every order that respects the answers; results
	// of calls are renamed, so that what is needed later is kept in the state
	key := fmt.Sprintf("~sort%d", x.depth)
	keep := vStruct{[]V{vStruct{append([]V{sl}, args...)}}}
	for _, f := range foc {
		keep.f = append(keep.f, vStruct{[]V{f.g.v, vInt{f.pos}}})
	}
	for _, g := range w {
		keep.f = append(keep.f, vStruct{[]V{g.v, vInt{g.n}}})
	}
	st.ghost[key] = keep
	load := func(st *state) {
		k := st.ghost[key].(vStruct)
		copy(args, k.f[0].(vStruct).f[1:])
		sl = k.f[0].(vStruct).f[0].(vSlice)
		for i := range foc {
			f := k.f[1+i].(vStruct)
			foc[i] = item{seg{f.f[0], lc(1)}, f.f[1].(vInt).l}
		}
		noise = Lin{}
		for i := range w {
			f := k.f[1+len(foc)+i].(vStruct)
			if w[i] = (seg{f.f[0], f.f[1].(vInt).l}); !st.isFocus(w[i].v) {
				noise = noise.add(w[i].n)
			}
		}
	}
	type cand struct {
		st *state
		lt map[[2]int]bool
	}
	cands := []cand{{st, map[[2]int]bool{}}}
	var out []res
	for i := range foc {
		for j := range foc {
			if i == j {
				continue
			}
			var nx []cand
			for _, c := range cands {
				load(c.st)
				for _, r := range less(c.st.clone(), sl, foc[i].pos, foc[j].pos, foc[i].g.v, foc[j].g.v) {
					if r.pan != "" {
						out = append(out, r)
						continue
					}
					b, ok := r.v.(vBool)
					lt := map[[2]int]bool{}
					for k, v := range c.lt {
						lt[k] = v
					}
					if !ok {
						undec("undecided comparison while sorting")
					}
					lt[[2]int{i, j}] = bool(b)
					nx = append(nx, cand{r.st, lt})
				}
			}
			cands = nx
		}
	}
	for _, c := range cands {
		load(c.st)
		delete(c.st.ghost, key)
		idx := make([]V, len(foc))
		for i := range idx {
			idx[i] = vInt{lc(i)}
		}
		permute(idx, func(p []V) {
			var order []item
			ok := true
			for a := range p {
				i := p[a].(vInt).l.C
				order = append(order, foc[i])
				for b := a + 1; b < len(p); b++ {
					j := p[b].(vInt).l.C
					if c.lt[[2]int{j, i}] && !c.lt[[2]int{i, j}] {
						ok = false
					}
					tie := !c.lt[[2]int{i, j}] && !c.lt[[2]int{j, i}]
					if tie && (stable || x.stableTies) && j < i {
						ok = false
					}
				}
			}
			if ok {
				out = append(out, finish(c.st.clone(), order)...)
			}
		})
	}
	return out
}
