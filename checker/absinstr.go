package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (x *interp) instr(st *state, in ssa.Instruction) []res {
	val := func(v ssa.Value) V { return x.val(st, v) }
	switch in := in.(type) {
	case *ssa.DebugRef:
		return one(st, nil)
	case *ssa.Alloc:
		t := deref(in.Type())
		if a, ok := t.Underlying().(*types.Array); ok {
			id := st.alloc(&obj{kind: 'a', typ: t, w: []seg{{zero(a.Elem()), lc(int(a.Len()))}}})
			return one(st, vPtr{obj: id})
		}
		id := st.alloc(&obj{kind: 'c', typ: t, v: zero(t)})
		return one(st, vPtr{obj: id})
	case *ssa.BinOp:
		a, b := val(in.X), val(in.Y)
		if in.Op == token.EQL || in.Op == token.NEQ {
			if rs, ok := x.refineEq(st, in, a, b); ok {
				return rs
			}
		}
		return x.binop(st, in.Op, a, b)
	case *ssa.UnOp:
		v := val(in.X)
		switch in.Op {
		case token.MUL:
			return x.load(st, v, deref(in.X.Type()))
		case token.NOT:
			if b, ok := v.(vBool); ok {
				return one(st, !b)
			}
			return []res{{st: st, v: vBool(true)}, {st: st.clone(), v: vBool(false)}}
		case token.SUB:
			if i, ok := v.(vInt); ok {
				return one(st, vInt{st.n(i.l).mul(-1)})
			}
			return one(st, vRange{neg: true})
		case token.XOR:
			return one(st, vRange{neg: true})
		case token.ARROW:
			return x.recv(st, v, in)
		}
	case *ssa.ChangeType:
		return one(st, val(in.X))
	case *ssa.ChangeInterface:
		return one(st, val(in.X))
	case *ssa.MakeInterface:
		return one(st, vIface{in.X.Type(), val(in.X)})
	case *ssa.Convert:
		return x.convert(st, val(in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return x.convert(st, val(in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		t := val(in.Tuple)
		if tu, ok := t.(vTuple); ok && in.Index < len(tu) {
			return one(st, tu[in.Index])
		}
		return one(st, vTop{})
	case *ssa.Field:
		return one(st, getField(val(in.X), in.Field))
	case *ssa.FieldAddr:
		switch p := val(in.X).(type) {
		case vPtr:
			q := vPtr{obj: p.obj, path: append(append([]pstep{}, p.path...), pstep{field: in.Field})}
			return one(st, q)
		case vNil:
			return pan(st, "nil pointer dereference")
		case vTerm:
			f := deref(in.X.Type()).Underlying().(*types.Struct).Field(in.Field)
			return one(st, app("&field "+f.Name(), p))
		}
		return one(st, vTop{})
	case *ssa.IndexAddr:
		return x.indexAddr(st, val(in.X), val(in.Index))
	case *ssa.Index:
		return x.indexVal(st, val(in.X), val(in.Index))
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			return x.indexVal(st, val(in.X), val(in.Index))
		}
		mt := in.X.Type().Underlying().(*types.Map)
		var out []res
		for _, r := range x.mapLookup(st, val(in.X), val(in.Index)) {
			v := r.v
			if !r.ok {
				v = zero(mt.Elem())
			}
			for _, q := range x.inst(r.st, v) {
				if in.CommaOk {
					q.v = vTuple{q.v, vBool(r.ok)}
				}
				out = append(out, q)
			}
		}
		return out
	case *ssa.MapUpdate:
		return x.mapUpdate(st, val(in.Map), val(in.Key), val(in.Value))
	case *ssa.MakeMap:
		id := st.alloc(&obj{kind: 'm', typ: in.Type()})
		return one(st, vMap{id})
	case *ssa.MakeChan:
		id := st.alloc(&obj{kind: 'h', typ: in.Type(), v: vBool(false)})
		return one(st, vChan{id})
	case *ssa.MakeSlice:
		return x.makeSlice(st, in, val(in.Len), val(in.Cap))
	case *ssa.MakeClosure:
		var bs []V
		for _, b := range in.Bindings {
			bs = append(bs, val(b))
		}
		return one(st, vFunc{in.Fn.(*ssa.Function), bs})
	case *ssa.Slice:
		return x.slice(st, in)
	case *ssa.SliceToArrayPointer:
		if s, ok := val(in.X).(vSlice); ok && s.lo.eq(Lin{}) {
			return one(st, vPtr{obj: s.obj})
		}
		return one(st, vTop{})
	case *ssa.Store:
		return x.store(st, val(in.Addr), val(in.Val))
	case *ssa.TypeAssert:
		return x.typeAssert(st, in, val(in.X))
	case *ssa.Range:
		return x.rang(st, val(in.X), in.X.Type())
	case *ssa.Next:
		return x.next(st, in, val(in.Iter))
	case *ssa.Send:
		if c, ok := val(in.Chan).(vChan); ok {
			o := st.mut(c.obj)
			if st.g > 0 {
				o.tag = "arrival"
			}
			o.w = append(o.w, seg{val(in.X), lc(1)})
			return one(st, nil)
		}
		undec("send on an unknown channel at %s", x.w.ipos(in))
	case *ssa.Call:
		return x.call(st, &in.Call, in)
	case *ssa.Go:
		fn, args := x.callee(st, &in.Call)
		if x.late { // started, but does not get to run before somebody waits
			f := st.frames[0]
			f.defers = append(f.defers, deferred{call: &in.Call, fn: fn, args: args, in: in, spawned: true})
			return one(st, nil)
		}
		st.g++
		base := st.g
		var out []res
		for _, r := range x.invoke(st, &in.Call, fn, args, in) {
			if r.pan == "" {
				r.st.g = base - 1
			}
			r.v = nil
			out = append(out, r)
		}
		return out
	case *ssa.Defer:
		fn, args := x.callee(st, &in.Call)
		f := st.top()
		f.defers = append(f.defers, deferred{call: &in.Call, fn: fn, args: args, in: in})
		return one(st, nil)
	case *ssa.RunDefers:
		return x.runDefers(st)
	}
	undec("unsupported instruction %T at %s", in, x.w.ipos(in))
	return nil
}

// runSpawned runs the goroutines that are still to run, the last one first.
func (x *interp) runSpawned(st *state) []res {
	f := st.frames[0]
	for i := len(f.defers) - 1; i >= 0; i-- {
		d := f.defers[i]
		if !d.spawned {
			continue
		}
		f.defers = append(append([]deferred{}, f.defers[:i]...), f.defers[i+1:]...)
		st.g++
		base := st.g
		var out []res
		for _, r := range x.invoke(st, d.call, d.fn, d.args, d.in) {
			if r.pan != "" {
				out = append(out, r)
				continue
			}
			r.st.g = base - 1
			out = append(out, x.runSpawned(r.st)...)
		}
		return out
	}
	return one(st, nil)
}

func (x *interp) runDefers(st *state) []res {
	f := st.top()
	if len(f.defers) == 0 {
		return one(st, nil)
	}
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	var out []res
	for _, r := range x.invoke(st, d.call, d.fn, d.args, d.in) {
		if r.pan != "" {
			out = append(out, r)
			continue
		}
		out = append(out, x.runDefers(r.st)...)
	}
	return out
}

// refineEq narrows finite sets of runes kept in registers.
func (x *interp) refineEq(st *state, in *ssa.BinOp, a, b V) ([]res, bool) {
	reg, r, c := in.X, a, b
	if _, ok := r.(vRange); !ok {
		reg, r, c = in.Y, b, a
	}
	rg, ok := r.(vRange)
	if !ok || rg.bounded() || len(rg.set) == 0 {
		return nil, false
	}
	k, ok := c.(vInt)
	if !ok || !st.n(k.l).isConst() {
		return nil, false
	}
	v := st.n(k.l).C
	has := false
	var rest []int
	for _, e := range rg.set {
		if e == v {
			has = true
		} else {
			rest = append(rest, e)
		}
	}
	eq := vBool(in.Op == token.EQL)
	if rg.neg {
		if has {
			return one(st, !eq), true
		}
		no := st.clone()
		st.top().env[reg] = k
		no.top().env[reg] = vRange{set: append(append([]int{}, rg.set...), v), neg: true}
		return []res{{st: st, v: eq}, {st: no, v: !eq}}, true
	}
	if !has {
		return one(st, !eq), true
	}
	if len(rest) == 0 {
		return one(st, eq), true
	}
	no := st.clone()
	st.top().env[reg] = k
	no.top().env[reg] = vRange{set: rest}
	return []res{{st: st, v: eq}, {st: no, v: !eq}}, true
}

func intSize(b *types.Basic) int64 { return types.SizesFor("gc", "amd64").Sizeof(b) }

func (x *interp) convert(st *state, v V, from, to types.Type) []res {
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	if _, ok := fu.(*types.Slice); ok && tb != nil && tb.Info()&types.IsString != 0 {
		if s, ok := v.(vSlice); ok {
			var out []res
			for _, t := range x.take(st, s) {
				id := t.st.alloc(&obj{kind: 'a', w: t.w})
				out = append(out, res{st: t.st, v: vText{vSlice{obj: id, hi: t.st.wlen(t.w)}}})
			}
			return out
		}
		if isNil(v) {
			return one(st, vStr(""))
		}
		return one(st, app("string", v))
	}
	if sl, ok := tu.(*types.Slice); ok && fb != nil && fb.Info()&types.IsString != 0 {
		if e, ok := sl.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Byte {
			if t, ok := v.(vText); ok {
				var out []res
				for _, r := range x.take(st, t.s.(vSlice)) {
					id := r.st.alloc(&obj{kind: 'a', w: r.w})
					out = append(out, res{st: r.st, v: vSlice{obj: id, hi: r.st.wlen(r.w)}})
				}
				return out
			}
			return one(st, vTop{})
		}
		if t, ok := v.(vText); ok {
			var out []res
			for _, c := range x.runes(st, t) {
				out = append(out, res{st: c.st, v: c.r})
			}
			return out
		}
		return one(st, vTop{})
	}
	if fb != nil && tb != nil {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			if n, ok := v.(vInt); ok && intSize(tb) < intSize(fb) {
				l := st.n(n.l)
				if !l.isConst() {
					return one(st, app(tb.Name(), n)) // not every value fits
				}
				k, bits := l.C, uint(8*intSize(tb))
				k &= 1<<bits - 1
				if tb.Info()&types.IsUnsigned == 0 && k>>(bits-1) == 1 {
					k -= 1 << bits
				}
				return one(st, vInt{lc(k)})
			}
			return one(st, v)
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return one(st, v)
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			return one(st, app("runestring", v))
		}
	}
	return one(st, vTop{})
}

// bounded splits the state into idx in range and out of range.
func (x *interp) bounded(st *state, idx V, n Lin) (in, out []*state) {
	i, ok := idx.(vInt)
	if !ok {
		return []*state{st}, nil // noise index; see DESIGN
	}
	nonneg := st.assumeGE(i.l)
	if !st.ge0(i.l) {
		out = append(out, st.clone().assumeGE(st.n(i.l).mul(-1).addc(-1))...)
	}
	for _, s := range nonneg {
		y, no := s.less(i.l, n)
		in = append(in, y...)
		out = append(out, no...)
	}
	return
}

func (x *interp) indexAddr(st *state, v, idx V) []res {
	switch s := v.(type) {
	case vSlice:
		ok, bad := x.bounded(st, idx, s.hi.sub(s.lo))
		var out []res
		for _, b := range bad {
			out = append(out, res{st: b, pan: "index out of range"})
		}
		for _, g := range ok {
			j := idx
			if i, isInt := idx.(vInt); isInt {
				j = vInt{g.n(i.l.add(s.lo))}
			} else {
				j = vRange{neg: true}
			}
			out = append(out, res{st: g, v: vPtr{obj: s.obj, path: []pstep{{-1, j}}}})
		}
		return out
	case vNil:
		return pan(st, "index out of range")
	case vPtr: // pointer to array
		if st.heap[s.obj].kind == 'a' && len(s.path) == 0 {
			ok, bad := x.bounded(st, idx, st.wlen(st.heap[s.obj].w))
			var out []res
			for _, b := range bad {
				out = append(out, res{st: b, pan: "index out of range"})
			}
			for _, g := range ok {
				out = append(out, res{st: g, v: vPtr{obj: s.obj, path: []pstep{{-1, idx}}}})
			}
			return out
		}
	}
	return one(st, vTop{})
}

func (x *interp) indexVal(st *state, v, idx V) []res {
	switch s := v.(type) {
	case vStr:
		if i, ok := idx.(vInt); ok && st.n(i.l).isConst() {
			k := st.n(i.l).C
			if k < 0 || k >= len(s) {
				return pan(st, "index out of range")
			}
			return one(st, vInt{lc(int(s[k]))})
		}
	}
	return one(st, vRange{neg: true})
}

func (x *interp) makeSlice(st *state, in *ssa.MakeSlice, ln, cp V) []res {
	el := in.Type().Underlying().(*types.Slice).Elem()
	l, ok := ln.(vInt)
	if !ok {
		l = vInt{fresh()}
	}
	c, ok := cp.(vInt)
	if !ok || in.Cap == in.Len {
		c = l
		if in.Cap != in.Len {
			c = vInt{l.l.add(fresh())}
		}
	}
	var out []res
	if !st.ge0(l.l) {
		for _, s := range st.clone().assumeGE(st.n(l.l).mul(-1).addc(-1)) {
			out = append(out, res{st: s, pan: "makeslice: len out of range"})
		}
	}
	for _, s := range st.assumeGE(l.l) {
		lt, ge := s.less(c.l, l.l)
		for _, b := range lt {
			out = append(out, res{st: b, pan: "makeslice: cap out of range"})
		}
		for _, g := range ge {
			id := g.alloc(&obj{kind: 'a', typ: in.Type(), w: []seg{{zero(el), g.n(c.l)}}})
			out = append(out, res{st: g, v: vSlice{obj: id, hi: g.n(l.l)}})
		}
	}
	return out
}

func (x *interp) slice(st *state, in *ssa.Slice) []res {
	v := x.val(st, in.X)
	get := func(o ssa.Value) V {
		if o == nil {
			return nil
		}
		return x.val(st, o)
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	text := false
	if t, ok := v.(vText); ok {
		v, text = t.s, true
	}
	if p, ok := v.(vPtr); ok && len(p.path) == 0 && st.heap[p.obj].kind == 'a' {
		v = vSlice{obj: p.obj, hi: st.wlen(st.heap[p.obj].w)}
	}
	if s, ok := v.(vStr); ok {
		l, h := 0, len(s)
		okc := true
		for _, q := range []struct {
			v V
			d *int
		}{{lo, &l}, {hi, &h}} {
			if q.v == nil {
				continue
			}
			if i, ok := q.v.(vInt); ok && st.n(i.l).isConst() {
				*q.d = st.n(i.l).C
			} else {
				okc = false
			}
		}
		if okc {
			if l < 0 || l > h || h > len(s) {
				return pan(st, "slice bounds out of range")
			}
			return one(st, s[l:h])
		}
		return one(st, vTop{})
	}
	isInt := func(v V) bool { _, ok := v.(vInt); return v == nil || ok }
	if isNil(v) {
		bad := false
		for _, o := range []V{lo, hi, mx} {
			if i, ok := o.(vInt); ok && !st.eqLin(i.l, Lin{}) {
				bad = true
			}
		}
		if bad {
			y, n := []*state{st}, []*state{}
			for _, o := range []V{lo, hi, mx} {
				if i, ok := o.(vInt); ok {
					var ny []*state
					for _, s := range y {
						a, b := x.eq(s, i, vInt{})
						ny = append(ny, a...)
						n = append(n, b...)
					}
					y = ny
				}
			}
			out := each(y, vNil{})
			for _, s := range n {
				out = append(out, res{st: s, pan: "slice bounds out of range"})
			}
			return out
		}
		return one(st, vNil{})
	}
	s, ok := v.(vSlice)
	if !ok || !isInt(lo) || !isInt(hi) || !isInt(mx) {
		if ok {
			// unknown bounds: some part of the slice
			w := st.heap[s.obj].w
			var t []seg
			for _, g := range w {
				t = append(t, seg{g.v, fresh()})
			}
			st.imprecise("slice with unknown bounds")
			id := st.alloc(&obj{kind: 'a', w: t})
			return one(st, vSlice{obj: id, hi: st.wlen(t)})
		}
		return one(st, vTop{})
	}
	l, h := Lin{}, s.hi.sub(s.lo)
	if lo != nil {
		l = lo.(vInt).l
	}
	if hi != nil {
		h = hi.(vInt).l
	}
	cp := st.wlen(st.heap[s.obj].w).sub(s.lo)
	if s.full || text {
		cp = s.hi.sub(s.lo)
	}
	m := cp
	if mx != nil {
		m = mx.(vInt).l
	}
	var out []res
	cur := []*state{st}
	for _, q := range [][2]Lin{{Lin{}, l}, {l, h}, {h, m}, {m, cp}} {
		var nx []*state
		for _, c := range cur {
			y, n := c.less(q[1], q[0])
			for _, b := range y {
				out = append(out, res{st: b, pan: "slice bounds out of range"})
			}
			nx = append(nx, n...)
		}
		cur = nx
	}
	for _, c := range cur {
		r := vSlice{obj: s.obj, lo: c.n(s.lo.add(l)), hi: c.n(s.lo.add(h))}
		if mx != nil && c.eqLin(m, h) || s.full && c.eqLin(h, s.hi.sub(s.lo)) {
			r.full = true
		}
		if text {
			out = append(out, res{st: c, v: vText{r}})
		} else {
			out = append(out, res{st: c, v: r})
		}
	}
	return out
}

func (x *interp) typeAssert(st *state, in *ssa.TypeAssert, v V) []res {
	ok := func(st *state, v V) res {
		if in.CommaOk {
			return res{st: st, v: vTuple{v, vBool(true)}}
		}
		return res{st: st, v: v}
	}
	fail := func(st *state) res {
		if in.CommaOk {
			return res{st: st, v: vTuple{zero(in.AssertedType), vBool(false)}}
		}
		return res{st: st, pan: "failed type assertion"}
	}
	switch i := v.(type) {
	case vIface:
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if types.Implements(i.t, it) {
				return []res{ok(st, i)}
			}
			return []res{fail(st)}
		}
		if types.Identical(i.t, in.AssertedType) {
			return []res{ok(st, i.v)}
		}
		return []res{fail(st)}
	case vNil:
		return []res{fail(st)}
	case vTerm:
		return []res{ok(st, i), fail(st.clone())}
	}
	return []res{ok(st, vTop{}), fail(st.clone())}
}

// maps -----------------------------------------------------------------------

type mres struct {
	st *state
	v  V
	ok bool
}

func (x *interp) mapLookup(st *state, m, k V) []mres {
	mp, ok := m.(vMap)
	if !ok {
		if isNil(m) {
			return []mres{{st, nil, false}}
		}
		if t, ok := m.(vTerm); ok {
			return x.opaqueLookup(st, t, k)
		}
		return []mres{{st, vTop{}, true}, {st.clone(), nil, false}}
	}
	o := st.heap[mp.obj]
	if r, ok := k.(vRange); ok {
		if rs, ok := setLookup(st, o, r); ok {
			return rs
		}
	}
	var out []mres
	cur := []*state{st}
	for i := range o.ents {
		e := o.ents[i]
		var nx []*state
		for _, s := range cur {
			y, n := x.eq(s, k, e.k)
			for _, q := range y {
				out = append(out, mres{q, e.v, e.ok})
			}
			nx = append(nx, n...)
		}
		cur = nx
	}
	for _, s := range cur {
		out = append(out, x.restLookup(s, o.rest, k)...)
	}
	return out
}

func (x *interp) restLookup(st *state, rest []mrest, k V) []mres {
	switch k.(type) {
	case vInt, vRange:
		k = vRange{neg: true}
	}
	kk := vkey(st.nv(k))
	if x.concrete && len(rest) > 0 && !st.isKey(k) {
		st.loose = true
	}
	var out []mres
	for _, r := range rest {
		same := vkey(r.k) == kk
		if !same {
			if _, isTop := k.(vTop); !isTop {
				// different classes are disjoint; structured keys may agree
				if x.eqTri(st, r.k, k) == 0 {
					continue
				}
			}
		}
		if r.present && same {
			return append(out, mres{st, r.v, true})
		}
		for _, s := range st.clone().assumeGE(r.n.addc(-1)) {
			out = append(out, mres{s.clone(), r.v, true})
		}
	}
	return append(out, mres{st, nil, false})
}

// opaqueLookup: membership in a map of the caller.
func (x *interp) opaqueLookup(st *state, m vTerm, k V) []mres {
	f := "in " + vkey(m) + " " + vkey(unprime(st.nv(k)))
	if v, ok := st.facts[f]; ok {
		if v {
			return []mres{{st, app("at", m, k), true}}
		}
		return []mres{{st, nil, false}}
	}
	no := st.clone()
	if !termClass(k) {
		st.facts[f] = true
		no.facts[f] = false
	}
	return []mres{{st, app("at", m, k), true}, {no, nil, false}}
}

// setLookup decides membership of a finite or co-finite set of constants.
func setLookup(st *state, o *obj, r vRange) ([]mres, bool) {
	if len(o.rest) > 0 || r.bounded() || len(r.set) == 0 {
		return nil, false
	}
	keys := map[int]V{}
	for _, e := range o.ents {
		i, ok := e.k.(vInt)
		if !ok || !i.l.isConst() || !e.ok {
			return nil, false
		}
		keys[i.l.C] = e.v
	}
	in := 0
	var v V
	for _, c := range r.set {
		if w, ok := keys[c]; ok {
			in++
			v = w
		}
	}
	switch {
	case !r.neg && in == len(r.set):
		return []mres{{st, v, true}}, true
	case !r.neg && in == 0, r.neg && in == len(keys):
		return []mres{{st, nil, false}}, true
	}
	for _, w := range keys {
		v = w
		break
	}
	return []mres{{st, v, true}, {st.clone(), nil, false}}, true
}

func (x *interp) mapUpdate(st *state, m, k, v V) []res {
	mp, ok := m.(vMap)
	if !ok {
		if isNil(m) {
			return pan(st, "assignment to entry in nil map")
		}
		st.imprecise("update of an unknown map")
		return one(st, nil)
	}
	if !st.isKey(k) {
		// some entry of a class: weak update
		o := st.mut(mp.obj)
		for i, e := range o.ents {
			if e.ok && x.eqTri(st, k, e.k) == -1 {
				st.imprecise("update under a key that may be a tracked one")
				o.ents[i].v = joinV(st.tree(e.v, 0), st.tree(v, 0))
			}
		}
		x.absent(st, o, k)
		o.rest = addRest(o.rest, st.tree(k, 0), v, st)
		return one(st, nil)
	}
	var out []res
	cur := []*state{st}
	n := len(st.heap[mp.obj].ents)
	for i := 0; i < n; i++ {
		var nx []*state
		for _, s := range cur {
			e := s.heap[mp.obj].ents[i]
			y, no := x.eq(s, k, e.k)
			for _, q := range y {
				o := q.mut(mp.obj)
				o.ents[i].v, o.ents[i].ok = v, true
				out = append(out, res{st: q})
			}
			nx = append(nx, no...)
		}
		cur = nx
	}
	for _, s := range cur {
		o := s.mut(mp.obj)
		o.ents = append(o.ents, ment{k, v, true})
		out = append(out, res{st: s})
	}
	return out
}

// absent notes that tracked keys next to a range are not in the map, before
// the keys of the range join its other keys.
func (x *interp) absent(st *state, o *obj, k V) {
	r, ok := k.(vRange)
	if !ok {
		return
	}
	if r.glo == nil && r.ghi == nil {
		return
	}
	for _, g := range []string{"@d", "@e"} {
		t, ok := st.ghost[g].(vInt)
		if !ok || x.eqTri(st, r, t) != 0 {
			continue
		}
		in := false
		for _, e := range o.ents {
			in = in || x.eqTri(st, e.k, t) != 0
		}
		for _, e := range o.rest {
			in = in || x.eqTri(st, e.k, t) != 0
		}
		if !in {
			o.ents = append(o.ents, ment{t, nil, false})
		}
	}
}

// isKey: keys that denote one fixed value.
func (s *state) isKey(k V) bool {
	switch k.(type) {
	case vRange, vTop:
		return false
	}
	return !termClass(k)
}

func (x *interp) mapDelete(st *state, m, k V) []res {
	mp, ok := m.(vMap)
	if !ok {
		if isNil(m) {
			return one(st, nil)
		}
		st.imprecise("delete from an unknown map")
		return one(st, nil)
	}
	if !st.isKey(k) {
		o := st.mut(mp.obj)
		switch k.(type) {
		case vInt, vRange:
			k = vRange{neg: true}
		}
		kk := vkey(st.nv(k))
		for i := range o.rest {
			if vkey(o.rest[i].k) == kk {
				o.rest[i].n = fresh()
				o.rest[i].present = false
			}
		}
		return one(st, nil)
	}
	var out []res
	cur := []*state{st}
	n := len(st.heap[mp.obj].ents)
	for i := 0; i < n; i++ {
		var nx []*state
		for _, s := range cur {
			e := s.heap[mp.obj].ents[i]
			y, no := x.eq(s, k, e.k)
			for _, q := range y {
				o := q.mut(mp.obj)
				o.ents[i].ok = false
				o.ents[i].v = nil
				out = append(out, res{st: q})
			}
			nx = append(nx, no...)
		}
		cur = nx
	}
	for _, s := range cur {
		if rs := s.heap[mp.obj].rest; len(rs) > 0 {
			// a key of its own that is in no class of the map: absent
			hit := false
			for _, r := range rs {
				if x.eqTri(s, k, r.k) == -1 {
					hit = true
				}
			}
			if hit {
				o := s.mut(mp.obj)
				o.ents = append(o.ents, ment{k, nil, false})
			}
		}
		out = append(out, res{st: s})
	}
	return out
}

// iteration ------------------------------------------------------------------

func (x *interp) rang(st *state, v V, t types.Type) []res {
	switch t.Underlying().(type) {
	case *types.Map:
		m, ok := v.(vMap)
		if !ok {
			if isNil(v) {
				id := st.alloc(&obj{kind: 'i', v: v})
				return one(st, vIter{id})
			}
			id := st.alloc(&obj{kind: 'i', v: v, w: []seg{{class("key of " + vkey(v)), fresh()}}})
			return one(st, vIter{id})
		}
		o := st.heap[m.obj]
		var keys []V
		for _, e := range o.ents {
			if e.ok {
				keys = append(keys, e.k)
			}
		}
		n := Lin{}
		var rk V
		for _, r := range o.rest {
			n = n.add(r.n)
			if rk == nil {
				rk = r.k
			} else {
				rk = joinV(rk, r.k)
			}
		}
		if len(keys) > 4 {
			undec("iteration over a map with %d tracked keys", len(keys))
		}
		var out []res
		permute(keys, func(p []V) {
			s := st.clone()
			var w []seg
			sum := Lin{}
			gap := func(last bool) {
				if rk == nil {
					return
				}
				l := fresh()
				sum = sum.add(l)
				w = append(w, seg{rk, l})
			}
			for i, k := range p {
				gap(false)
				w = append(w, seg{k, lc(1)})
				if i == len(p)-1 {
					gap(true)
				}
			}
			if len(p) == 0 && rk != nil {
				w = append(w, seg{rk, n})
				sum = n
			}
			for _, q := range s.assumeEQ(n.sub(sum)) {
				q = q.clone()
				id := q.alloc(&obj{kind: 'i', v: m, w: append([]seg{}, w...)})
				out = append(out, res{st: q, v: vIter{id}})
			}
		})
		return out
	}
	id := st.alloc(&obj{kind: 't', v: v})
	return one(st, vIter{id})
}

func permute(xs []V, f func([]V)) {
	var rec func(k int)
	p := append([]V{}, xs...)
	rec = func(k int) {
		if k == len(p) {
			f(p)
			return
		}
		for i := k; i < len(p); i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

func (x *interp) next(st *state, in *ssa.Next, it V) []res {
	id := it.(vIter).obj
	if in.IsString {
		return x.nextRune(st, id)
	}
	tt := in.Type().(*types.Tuple)
	var out []res
	for _, e := range x.elemFrom(st, id, 0) {
		if e.pan != "" {
			var kz, vz V = vTop{}, vTop{}
			if tt.At(1).Type() != types.Typ[types.Invalid] {
				kz = zero(tt.At(1).Type())
			}
			if tt.At(2).Type() != types.Typ[types.Invalid] {
				vz = zero(tt.At(2).Type())
			}
			out = append(out, res{st: e.st, v: vTuple{vBool(false), kz, vz}})
			continue
		}
		for _, c := range x.splitFirst(e.st, id, 0) {
			if c.i < 0 {
				continue
			}
			o := c.st.mut(id)
			k := o.w[c.i].v
			o.w = append([]seg{}, o.w[c.i+1:]...)
			for _, kr := range x.inst(c.st, k) {
				src := kr.st.heap[id].v
				for _, r := range x.mapLookup(kr.st, src, kr.v) {
					if !r.ok {
						if r.st.isKey(kr.v) {
							// removed before being reached
							out = append(out, x.next(r.st, in, it)...)
						}
						continue
					}
					for _, q := range x.inst(r.st, r.v) {
						out = append(out, res{st: q.st, v: vTuple{vBool(true), kr.v, q.v}})
					}
				}
			}
		}
	}
	return out
}

// text -----------------------------------------------------------------------

// charSet gives the runes of a character symbol.
var charSets = map[string]vRange{}

func (x *interp) nextRune(st *state, id int) []res {
	o := st.heap[id]
	end := func(s *state) res { return res{st: s, v: vTuple{vBool(false), vInt{}, vInt{}}} }
	switch src := o.v.(type) {
	case vStr:
		if !o.pos.isConst() {
			undec("rune iteration at an unknown position of a constant")
		}
		p := o.pos.C
		if p >= len(src) {
			return []res{end(st)}
		}
		r, n := utf8.DecodeRuneInString(string(src[p:]))
		st.mut(id).pos = lc(p + n)
		return one(st, vTuple{vBool(true), vInt{lc(p)}, vInt{lc(int(r))}})
	case vText:
		pos := st.n(o.pos)
		more, done := x.runeAt(st, src.s.(vSlice), pos)
		var out []res
		for _, d := range done {
			out = append(out, end(d))
		}
		for _, e := range more {
			w := e.st.mut(id)
			w.pos = e.st.n(pos.add(e.n))
			out = append(out, res{st: e.st, v: vTuple{vBool(true), vInt{e.st.n(pos)}, e.r}})
		}
		return out
	}
	// unknown string
	return []res{end(st.clone()), {st: st, v: vTuple{vBool(true), vRange{neg: true}, vRange{neg: true}}}}
}

// runeAt decodes the character that starts at a position of a slice of bytes.
func (x *interp) runeAt(st *state, s vSlice, pos Lin) (out []charRes, done []*state) {
	abs := st.n(s.lo.add(pos))
	more, done := st.less(pos, st.n(s.hi.sub(s.lo)))
	for _, m := range more {
		for _, c := range m.cut(s.obj, abs) {
			if c.i < 0 {
				undec("text position outside of the text")
			}
			out = append(out, x.charAt(c.st, s.obj, c.i)...)
		}
	}
	return
}

// runes are all the characters of a text of fixed structure.
func (x *interp) runes(st *state, v V) []charRes {
	if t, ok := v.(vText); ok {
		v = t.s
	}
	type part struct {
		st  *state
		pos Lin
		w   []seg
	}
	s, ok := v.(vSlice)
	if !ok || !x.concrete {
		undec("the characters of a text")
	}
	var out []charRes
	for todo := []part{{st: st}}; len(todo) > 0; {
		p := todo[0]
		todo = todo[1:]
		more, done := x.runeAt(p.st, s, p.pos)
		for _, d := range done {
			id := d.alloc(&obj{kind: 'a', w: p.w})
			n := lc(len(p.w))
			out = append(out, charRes{d, vSlice{obj: id, hi: n, full: true}, n})
		}
		for _, m := range more {
			w := append(append([]seg{}, p.w...), seg{m.r, lc(1)})
			todo = append(todo, part{m.st, m.st.n(p.pos.add(m.n)), w})
		}
	}
	return out
}

// inConst decides membership of a character in a constant text.
func (x *interp) inConst(st *state, t vStr, r V) ([]res, bool) {
	o := &obj{}
	for _, c := range t {
		o.ents = append(o.ents, ment{k: vInt{lc(int(c))}, v: vNil{}, ok: true})
	}
	var out []res
	switch r := r.(type) {
	case vInt:
		if !st.n(r.l).isConst() {
			return nil, false
		}
		return one(st, vBool(strings.ContainsRune(string(t), rune(st.n(r.l).C)))), true
	case vRange:
		rs, ok := setLookup(st, o, r)
		for _, m := range rs {
			out = append(out, res{st: m.st, v: vBool(m.ok)})
		}
		return out, ok
	}
	return nil, false
}

type charRes struct {
	st *state
	r  V
	n  Lin
}

func (x *interp) charAt(st *state, id, i int) []charRes {
	var out []charRes
	w := st.heap[id].w
	for ; i < len(w); i++ {
		n := st.n(w[i].n)
		t, ok := w[i].v.(vTerm)
		if !ok {
			undec("text of unknown characters")
		}
		set, ok := charSets[t.op]
		if !ok {
			undec("text of unknown characters %s", t.op)
		}
		if !t.class { // one character
			return append(out, charRes{st, set, n})
		}
		for _, s := range st.clone().assumeGE(n.addc(-1)) {
			// n = (1+b) + rest
			m := s.n(n)
			b := fresh()
			for _, q := range s.assumeGE(m.sub(b).addc(-1)) {
				q = q.clone()
				out = append(out, charRes{q, set, q.n(b.addc(1))})
			}
		}
		z := st.assumeEQ(n)
		if len(z) == 0 {
			return out
		}
		for _, s := range z[1:] {
			out = append(out, x.charAt(s, id, i+1)...)
		}
		st = z[0]
	}
	return out
}

// channels ---------------------------------------------------------------------

func (x *interp) recv(st *state, v V, in *ssa.UnOp) []res {
	c, ok := v.(vChan)
	if !ok {
		undec("receive from an unknown channel at %s", x.w.ipos(in))
	}
	if x.late {
		for _, d := range st.frames[0].defers {
			if !d.spawned {
				continue
			}
			var out []res
			for _, r := range x.runSpawned(st) {
				if r.pan != "" {
					out = append(out, r)
					continue
				}
				out = append(out, x.recv(r.st, v, in)...)
			}
			return out
		}
	}
	o := st.heap[c.obj]
	el := o.typ.Underlying().(*types.Chan).Elem()
	mk := func(s *state, v V, ok bool) []res {
		var out []res
		for _, r := range x.inst(s, v) {
			if in.CommaOk {
				r.v = vTuple{r.v, vBool(ok)}
			}
			out = append(out, r)
		}
		return out
	}
	var out []res
	w := o.w
	cur := []*state{st}
	for i := range w {
		var nx []*state
		for _, s := range cur {
			n := s.n(w[i].n)
			for _, q := range s.clone().assumeGE(n.addc(-1)) {
				q = q.clone()
				ob := q.mut(c.obj)
				ob.w[i].n = q.n(n.addc(-1))
				ob.w = q.normWord(ob.w)
				out = append(out, mk(q, w[i].v, true)...)
			}
			if o.tag == "arrival" {
				nx = append(nx, s) // any element may come first
			} else {
				nx = append(nx, s.assumeEQ(n)...)
			}
		}
		cur = nx
	}
	for _, s := range cur {
		// empty
		es := []*state{s}
		for i := range w {
			var ne []*state
			for _, e := range es {
				ne = append(ne, e.assumeEQ(e.n(w[i].n))...)
			}
			es = ne
		}
		for _, e := range es {
			if cl, ok := e.heap[c.obj].v.(vBool); ok && bool(cl) {
				out = append(out, mk(e.clone(), zero(el), false)...)
			} else {
				undec("receive from an empty channel at %s", x.w.ipos(in))
			}
		}
	}
	return out
}

// words of slices ----------------------------------------------------------------

type taken struct {
	st *state
	w  []seg
}

// take reads the content of a slice as a word.
func (x *interp) take(st *state, s vSlice) []taken {
	var out []taken
	for _, b := range st.cut(s.obj, s.lo) {
		if b.i < 0 {
			undec("slice outside of its array: %v %v", s, st)
		}
		for _, e := range b.st.cut(s.obj, s.hi) {
			if e.i < 0 {
				undec("slice outside of its array: %v %v", s, st)
			}
			// recompute the start: the cut at hi may have split segments
			w := e.st.heap[s.obj].w
			i, cum := 0, Lin{}
			for i < len(w) && !e.st.eqLin(cum, s.lo) {
				cum = cum.add(e.st.n(w[i].n))
				i++
			}
			if i > e.i {
				i = e.i
			}
			out = append(out, taken{e.st, e.st.normWord(append([]seg{}, w[i:e.i]...))})
		}
	}
	return out
}

// put overwrites an array from position p with a word.
func (x *interp) put(st *state, id int, p Lin, w []seg) []res {
	if len(st.heap[id].w) > 150 {
		undec("the content of a slice is too irregular")
	}
	end := p.add(st.wlen(w))
	var out []res
	for _, b := range st.cut(id, p) {
		for _, e := range b.st.cut(id, end) {
			if b.i < 0 || e.i < 0 {
				out = append(out, res{st: e.st, pan: "slice bounds out of range"})
				continue
			}
			o := e.st.mut(id)
			i, cum := 0, Lin{}
			for i < len(o.w) && !e.st.eqLin(cum, p) {
				cum = cum.add(e.st.n(o.w[i].n))
				i++
			}
			if i > e.i {
				i = e.i
			}
			nw := append([]seg{}, o.w[:i]...)
			nw = append(nw, w...)
			nw = append(nw, o.w[e.i:]...)
			o.w = e.st.normWord(nw)
			out = append(out, res{st: e.st})
		}
	}
	return out
}

func (x *interp) doAppend(st *state, s, t V) []res {
	var tw []taken
	switch t := t.(type) {
	case vNil:
		tw = []taken{{st, nil}}
	case vSlice:
		tw = x.take(st, t)
	default:
		// unknown content
		tw = []taken{{st, []seg{{vTop{}, fresh()}}}}
	}
	var out []res
	for _, k := range tw {
		m := k.st.wlen(k.w)
		switch d := s.(type) {
		case vNil:
			if len(k.w) == 0 {
				out = append(out, res{st: k.st, v: vNil{}})
				continue
			}
			some := k.st.assumeGE(m.addc(-1))
			none := k.st.assumeEQ(m)
			for _, q := range none {
				out = append(out, res{st: q.clone(), v: vNil{}})
			}
			for _, q := range some {
				q = q.clone()
				id := q.alloc(&obj{kind: 'a', w: q.normWord(k.w)})
				out = append(out, res{st: q, v: vSlice{obj: id, hi: q.n(m)}})
			}
		case vSlice:
			total := k.st.wlen(k.st.heap[d.obj].w)
			var fit, grow []*state
			if d.full || k.st.eqLin(total, d.hi) {
				grow = []*state{k.st}
			} else {
				grow, fit = k.st.less(total, d.hi.add(m))
			}
			for _, q := range fit {
				for _, r := range x.put(q, d.obj, d.hi, k.w) {
					r.v = vSlice{obj: d.obj, lo: d.lo, hi: r.st.n(d.hi.add(m))}
					out = append(out, r)
				}
			}
			for _, q := range grow {
				for _, f := range x.take(q, vSlice{obj: d.obj, lo: d.lo, hi: d.hi}) {
					w := f.st.normWord(append(append([]seg{}, f.w...), k.w...))
					tag := f.st.heap[d.obj].tag
					id := f.st.alloc(&obj{kind: 'a', w: w, tag: tag})
					out = append(out, res{st: f.st, v: vSlice{obj: id, hi: f.st.wlen(w)}})
				}
			}
		default:
			id := k.st.alloc(&obj{kind: 'a', w: append([]seg{{vTop{}, fresh()}}, k.w...)})
			k.st.imprecise("append to an unknown slice")
			out = append(out, res{st: k.st, v: vSlice{obj: id, hi: k.st.wlen(k.st.heap[id].w)}})
		}
	}
	return out
}

func (x *interp) doCopy(st *state, d, s V) []res {
	ds, ok := d.(vSlice)
	if !ok {
		return one(st, vInt{})
	}
	ss, ok := s.(vSlice)
	if !ok {
		if isNil(s) {
			return one(st, vInt{})
		}
		undec("copy from an unknown slice")
	}
	ld, ls := ds.hi.sub(ds.lo), ss.hi.sub(ss.lo)
	short, enough := st.less(ld, ls)
	var out []res
	do := func(q *state, n Lin) {
		for _, k := range x.take(q, vSlice{obj: ss.obj, lo: ss.lo, hi: ss.lo.add(n)}) {
			for _, r := range x.put(k.st, ds.obj, ds.lo, k.w) {
				r.v = vInt{r.st.n(n)}
				out = append(out, r)
			}
		}
	}
	for _, q := range short {
		do(q, ld)
	}
	for _, q := range enough {
		do(q, ls)
	}
	return out
}

var _ = fmt.Sprint
var _ = strings.HasPrefix
