package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Abstract values of engine A.
//
// Scalars of the input are symbols. A focus symbol denotes one arbitrary but
// fixed value; a class symbol denotes some value out of a set of values that
// are all different from every focus symbol (two occurrences of a class
// symbol need not be equal). Sequences are segmented arrays: words of
// segments (content, length) with lengths that are linear forms over
// non-negative parameters.

type V interface{}

type (
	vTop  struct{}
	vBool bool
	vInt  struct{ l Lin }
	// vRange is an unknown integer: in set (or outside of it when neg), at
	// least lo and at most hi.
	vRange struct {
		set    []int
		neg    bool
		lo, hi *Lin
		// bounds relative to a ghost integer; these survive summarising
		glo, ghi *gbound
	}
	vStr  string
	vTerm struct {
		op    string
		args  []V
		class bool
	}
	vNil    struct{}
	vStruct struct{ f []V }
	vPtr    struct {
		obj  int
		path []pstep
	}
	vSlice struct {
		obj    int
		lo, hi Lin
		full   bool // no spare capacity
	}
	vText  struct{ s V } // string made of the bytes of a slice
	vMap   struct{ obj int }
	vChan  struct{ obj int }
	vIter  struct{ obj int }
	vIface struct {
		t types.Type
		v V
	}
	vFunc struct {
		fn    *ssa.Function
		binds []V
	}
	vTuple  []V
	vChoice []V // summarised content: one of these
	vTmpl   struct{ segs []tseg }
	vRef    struct{ v V } // summarised content: pointer to a fresh cell
)

// gbound is the value of ghost integer g plus off.
type gbound struct {
	g   string
	off int
}

func (g *gbound) String() string { return fmt.Sprintf("%s%+d", g.g, g.off) }

func (g *gbound) same(h *gbound) bool { return g != nil && h != nil && *g == *h }

// eff resolves the ghost bounds of a range.
func (s *state) eff(r vRange) vRange {
	get := func(p *Lin, g *gbound) *Lin {
		if p != nil || g == nil {
			return p
		}
		if v, ok := s.ghost[g.g].(vInt); ok {
			l := s.n(v.l.addc(g.off))
			return &l
		}
		return nil
	}
	r.lo, r.hi = get(r.lo, r.glo), get(r.hi, r.ghi)
	return r
}

func (r vRange) bounded() bool { return r.lo != nil || r.hi != nil || r.glo != nil || r.ghi != nil }

type pstep struct {
	field int // -1: element
	idx   V   // vInt or unknown
}

// tseg is a segment of a summarised slice: at least min elements, exactly
// min when exact.
type tseg struct {
	v     V
	min   int
	exact bool
}

type seg struct {
	v V
	n Lin
}

type ment struct {
	k, v V
	ok   bool
}

// mrest is a group of map entries whose keys are a class. present: every
// member of the class is a key; otherwise members may be keys.
type mrest struct {
	k       V
	v       V
	n       Lin
	present bool
}

type obj struct {
	kind byte // c cell, a array, m map, i map iterator, t text iterator, h channel
	typ  types.Type
	v    V     // cell; iterator source
	w    []seg // array, iterator rest, channel queue
	ents []ment
	rest []mrest
	tag  string
	g    int // goroutine depth at allocation
	pos  Lin // text iterator
}

type deferred struct {
	call *ssa.CallCommon
	fn   V
	args []V
	in   ssa.Instruction
	// a goroutine that has not run yet
	spawned bool
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]V
	defers []deferred
}

type state struct {
	heap   map[int]*obj
	next   int
	frames []*frame
	sub    map[int]Lin
	facts  map[string]bool
	ghost  map[string]V
	glob   map[*ssa.Global]int
	impr   string
	loose  bool // the path depends on what a map holds for members of a class
	g      int
	notes  []string
}

func newState() *state {
	return &state{heap: map[int]*obj{}, next: 1, sub: map[int]Lin{}, facts: map[string]bool{}, ghost: map[string]V{}, glob: map[*ssa.Global]int{}}
}

func (s *state) clone() *state {
	n := &state{next: s.next, impr: s.impr, loose: s.loose, g: s.g}
	n.heap = make(map[int]*obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.sub = make(map[int]Lin, len(s.sub))
	for k, v := range s.sub {
		n.sub[k] = v
	}
	n.facts = make(map[string]bool, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.ghost = make(map[string]V, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.glob = make(map[*ssa.Global]int, len(s.glob))
	for k, v := range s.glob {
		n.glob[k] = v
	}
	n.notes = append([]string{}, s.notes...)
	for _, f := range s.frames {
		e := make(map[ssa.Value]V, len(f.env))
		for k, v := range f.env {
			e[k] = v
		}
		n.frames = append(n.frames, &frame{f.fn, e, append([]deferred{}, f.defers...)})
	}
	return n
}

func (s *state) top() *frame { return s.frames[len(s.frames)-1] }

func (s *state) alloc(o *obj) int {
	id := s.next
	s.next++
	o.g = s.g
	s.heap[id] = o
	return id
}

// mut returns a private copy of an object for modification.
func (s *state) mut(id int) *obj {
	o := s.heap[id]
	if o == nil {
		undec("dangling object")
	}
	c := *o
	c.w = append([]seg{}, o.w...)
	c.ents = append([]ment{}, o.ents...)
	c.rest = append([]mrest{}, o.rest...)
	s.heap[id] = &c
	return &c
}

func (s *state) imprecise(why string) {
	if s.impr == "" {
		s.impr = why
	}
}

// undecidedErr aborts the analysis of one scenario.
type undecidedErr struct{ msg string }

func undec(f string, a ...any) { panic(undecidedErr{fmt.Sprintf(f, a...)}) }

// atoms ---------------------------------------------------------------------

var atomCounter atomic.Int64

func newAtom() int { return int(atomCounter.Add(1)) }

func fresh() Lin { return la(newAtom()) }

// n normalises a linear form under the substitution of the state.
func (s *state) n(l Lin) Lin {
	if len(s.sub) == 0 || len(l.T) == 0 {
		return l
	}
	for again := true; again; {
		again = false
		for _, t := range l.T {
			if r, ok := s.sub[t.A]; ok {
				l = l.with(t.A, r)
				again = true
				break
			}
		}
	}
	return l
}

// sign reports what is known: lower bound >=0, upper bound <=0 ...
func signs(l Lin) (minOK bool, min int, maxOK bool, max int) {
	minOK, maxOK = true, true
	for _, t := range l.T {
		if t.K > 0 {
			maxOK = false
		} else {
			minOK = false
		}
	}
	return minOK, l.C, maxOK, l.C
}

func (s *state) ge0(l Lin) bool { // definitely >= 0
	l = s.n(l)
	ok, m, _, _ := signs(l)
	return ok && m >= 0
}

func (s *state) lt0(l Lin) bool { // definitely < 0
	l = s.n(l)
	_, _, ok, m := signs(l)
	return ok && m < 0
}

func (s *state) eqLin(a, b Lin) bool { return s.n(a.sub(b)).eq(Lin{}) }

// assumeGE returns the (disjoint) refinements of s with l >= 0.
func (s *state) assumeGE(l Lin) []*state { return s.assume(l, false, 0) }

// assumeEQ returns the refinements of s with l == 0.
func (s *state) assumeEQ(l Lin) []*state { return s.assume(l, true, 0) }

func (s *state) with(atom int, l Lin) *state {
	c := s.clone()
	c.sub[atom] = l
	return c
}

func (s *state) assume(l Lin, eq bool, depth int) []*state {
	l = s.n(l)
	var pos, neg []linTerm
	for _, t := range l.T {
		if t.K > 0 {
			pos = append(pos, t)
		} else {
			neg = append(neg, t)
		}
	}
	if eq {
		if len(pos) == 0 && len(neg) == 0 {
			if l.C == 0 {
				return []*state{s}
			}
			return nil
		}
		if len(pos) == 0 && l.C < 0 || len(neg) == 0 && l.C > 0 {
			return nil
		}
		if l.C > 0 { // make the constant a demand
			return s.assume(l.mul(-1), true, depth)
		}
	} else {
		if len(neg) == 0 && l.C >= 0 {
			return []*state{s}
		}
		if len(pos) == 0 && l.C < 0 {
			return nil
		}
	}
	for _, t := range l.T {
		if t.K != 1 && t.K != -1 {
			c := s.clone()
			c.imprecise("non-unit coefficient in " + l.String())
			return []*state{c}
		}
	}
	if depth > 8 {
		c := s.clone()
		c.imprecise("deep case split")
		return []*state{c}
	}
	var out []*state
	switch {
	case l.C < 0: // distribute one unit of demand over the positive atoms
		zero := s
		for _, t := range pos {
			c := zero.with(t.A, la(newAtom()).addc(1))
			out = append(out, c.assume(l, eq, depth+1)...)
			zero = zero.with(t.A, Lin{})
		}
		return out
	case l.C > 0: // only when !eq: the constant covers one unit of the negative atoms
		zero := s
		for _, t := range neg {
			c := zero.with(t.A, la(newAtom()).addc(1))
			out = append(out, c.assume(l, eq, depth+1)...)
			zero = zero.with(t.A, Lin{})
		}
		return append(out, zero.assume(l, eq, depth+1)...)
	}
	// C == 0: transport
	if len(pos) == 0 || len(neg) == 0 && eq {
		c := s.clone()
		for _, t := range l.T {
			c.sub[t.A] = Lin{}
		}
		return []*state{c}
	}
	c := s.clone()
	if eq && len(pos) == 1 {
		r := Lin{}
		for _, t := range neg {
			r = r.add(la(t.A))
		}
		c.sub[pos[0].A] = r
		return []*state{c}
	}
	if eq && len(neg) == 1 {
		r := Lin{}
		for _, t := range pos {
			r = r.add(la(t.A))
		}
		c.sub[neg[0].A] = r
		return []*state{c}
	}
	if !eq && len(pos) == 1 {
		r := fresh()
		for _, t := range neg {
			r = r.add(la(t.A))
		}
		c.sub[pos[0].A] = r
		return []*state{c}
	}
	up := make([]Lin, len(pos))
	for i := range pos {
		if !eq {
			up[i] = fresh()
		}
	}
	for _, t := range neg {
		d := Lin{}
		for i := range pos {
			y := fresh()
			up[i] = up[i].add(y)
			d = d.add(y)
		}
		c.sub[t.A] = d
	}
	for i, t := range pos {
		c.sub[t.A] = up[i]
	}
	return []*state{c}
}

// cmp splits the state by a<b, a==b, a>b.
func (s *state) cmp(a, b Lin) (lt, eq, gt []*state) {
	d := s.n(a.sub(b))
	if d.isConst() {
		switch {
		case d.C < 0:
			return []*state{s}, nil, nil
		case d.C == 0:
			return nil, []*state{s}, nil
		}
		return nil, nil, []*state{s}
	}
	return s.assumeGE(d.mul(-1).addc(-1)), s.assumeEQ(d), s.assumeGE(d.addc(-1))
}

// less splits by a<b / a>=b.
func (s *state) less(a, b Lin) (yes, no []*state) {
	d := s.n(a.sub(b)) // a-b
	if s.ge0(d) {
		return nil, []*state{s}
	}
	if s.lt0(d) {
		return []*state{s}, nil
	}
	return s.assumeGE(d.mul(-1).addc(-1)), s.assumeGE(d)
}

// values --------------------------------------------------------------------

func sym(name string) vTerm   { return vTerm{op: name} }
func class(name string) vTerm { return vTerm{op: name, class: true} }
func app(op string, args ...V) vTerm {
	return vTerm{op: op, args: args}
}

func isNil(v V) bool { _, ok := v.(vNil); return ok }

// hasClass / hasSym look at a value without following references.
func scanV(v V, f func(V)) {
	f(v)
	switch x := v.(type) {
	case vTerm:
		for _, a := range x.args {
			scanV(a, f)
		}
	case vStruct:
		for _, a := range x.f {
			scanV(a, f)
		}
	case vTuple:
		for _, a := range x {
			scanV(a, f)
		}
	case vChoice:
		for _, a := range x {
			scanV(a, f)
		}
	case vIface:
		scanV(x.v, f)
	case vText:
		scanV(x.s, f)
	case vFunc:
		for _, a := range x.binds {
			scanV(a, f)
		}
	case vTmpl:
		for _, a := range x.segs {
			scanV(a.v, f)
		}
	case vRef:
		scanV(x.v, f)
	}
}

// isFocus tells whether a value must keep its identity in a sequence.
func (s *state) isFocus(v V) bool {
	cls, foc := false, false
	var refs []int
	scanV(v, func(x V) {
		switch x := x.(type) {
		case vTerm:
			if x.class {
				cls = true
			} else if len(x.args) == 0 {
				foc = true
			}
		case vChoice, vTmpl, vRef:
			cls = true
		case vInt:
			if s.ghostInt(x.l) {
				foc = true
			}
		case vSlice:
			refs = append(refs, x.obj)
		case vMap:
			refs = append(refs, x.obj)
		case vChan:
			refs = append(refs, x.obj)
		case vPtr:
			refs = append(refs, x.obj)
		}
	})
	if cls {
		return false
	}
	if foc {
		return true
	}
	for _, r := range refs {
		o := s.heap[r]
		if o == nil {
			continue
		}
		if o.kind == 'c' && s.isFocus(o.v) {
			return true
		}
		for _, sg := range o.w {
			if s.isFocus(sg.v) {
				return true
			}
		}
		if o.kind == 'm' || o.kind == 'h' {
			return true
		}
	}
	return false
}

func (s *state) ghostInt(l Lin) bool {
	l = s.n(l)
	for k, g := range s.ghost {
		if x, ok := g.(vInt); ok && (k[0] == '@' || !l.isConst()) && s.n(x.l).eq(l) {
			return true
		}
	}
	return false
}

// tree turns a value into summarised content without references.
func (s *state) tree(v V, depth int) V {
	if depth > 4 {
		return vTop{}
	}
	switch x := v.(type) {
	case vInt:
		if x.l = s.n(x.l); !x.l.isConst() {
			return vRange{neg: true}
		}
		return x
	case vRange:
		x.lo, x.hi = nil, nil
		return x
	case vStruct:
		f := make([]V, len(x.f))
		for i := range f {
			f[i] = s.tree(x.f[i], depth)
		}
		return vStruct{f}
	case vIface:
		return vIface{x.t, s.tree(x.v, depth)}
	case vSlice:
		o := s.heap[x.obj]
		if o == nil || o.kind != 'a' {
			return vTop{}
		}
		var segs []tseg
		for _, g := range s.subword(o.w, x.lo, x.hi) {
			n := s.n(g.n)
			t := tseg{v: s.tree(g.v, depth+1), min: n.C, exact: n.isConst()}
			if t.min < 0 {
				t.min = 0
			}
			segs = append(segs, t)
		}
		return vTmpl{mergeT(segs)}
	case vPtr:
		o := s.heap[x.obj]
		if o != nil && o.kind == 'c' && len(x.path) == 0 {
			return vRef{s.tree(o.v, depth+1)}
		}
		return vTop{}
	case vFunc:
		if len(x.binds) == 0 {
			return x
		}
		return vTop{}
	case vMap, vChan:
		return vTop{}
	case vTerm:
		return x
	}
	return v
}

// mergeT collapses a template to one segment.
func mergeT(segs []tseg) []tseg {
	if len(segs) <= 1 {
		return segs
	}
	r := segs[0]
	for _, t := range segs[1:] {
		r.v = joinV(r.v, t.v)
		r.min += t.min
		r.exact = r.exact && t.exact
	}
	if r.min > 1 {
		r.min, r.exact = 1, false
	}
	return []tseg{r}
}

// joinV joins two pieces of summarised content.
func joinV(a, b V) V {
	if vkey(a) == vkey(b) {
		return a
	}
	switch x := a.(type) {
	case vTop:
		return a
	case vStruct:
		if y, ok := b.(vStruct); ok && len(x.f) == len(y.f) {
			f := make([]V, len(x.f))
			for i := range f {
				f[i] = joinV(x.f[i], y.f[i])
			}
			return vStruct{f}
		}
	case vInt:
		switch b.(type) {
		case vInt, vRange:
			return vRange{neg: true}
		}
	case vRange:
		switch y := b.(type) {
		case vInt:
			return vRange{neg: true}
		case vRange:
			if x.neg || y.neg {
				j := vRange{neg: true}
				if x.neg && y.neg && fmt.Sprint(x.set) == fmt.Sprint(y.set) {
					j.set = x.set
				}
				if x.glo.same(y.glo) {
					j.glo = x.glo
				}
				if x.ghi.same(y.ghi) {
					j.ghi = x.ghi
				}
				return j
			}
			m := map[int]bool{}
			for _, c := range append(append([]int{}, x.set...), y.set...) {
				m[c] = true
			}
			var r []int
			for c := range m {
				r = append(r, c)
			}
			sort.Ints(r)
			return vRange{set: r}
		}
	case vTmpl:
		if y, ok := b.(vTmpl); ok {
			p, q := mergeT(x.segs), mergeT(y.segs)
			switch {
			case len(p) == 0 && len(q) == 0:
				return a
			case len(p) == 0:
				return vTmpl{[]tseg{{q[0].v, 0, false}}}
			case len(q) == 0:
				return vTmpl{[]tseg{{p[0].v, 0, false}}}
			}
			m := min(p[0].min, q[0].min)
			return vTmpl{[]tseg{{joinV(p[0].v, q[0].v), m, p[0].exact && q[0].exact && p[0].min == q[0].min}}}
		}
	case vIface:
		if y, ok := b.(vIface); ok && types.Identical(x.t, y.t) {
			return vIface{x.t, joinV(x.v, y.v)}
		}
	case vRef:
		if y, ok := b.(vRef); ok {
			return vRef{joinV(x.v, y.v)}
		}
	}
	if _, ok := b.(vTop); ok {
		return b
	}
	m := map[string]V{}
	add := func(v V) {
		if c, ok := v.(vChoice); ok {
			for _, y := range c {
				m[vkey(y)] = y
			}
		} else {
			m[vkey(v)] = v
		}
	}
	add(a)
	add(b)
	// at most one template / struct / iface per choice
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r vChoice
	for _, k := range ks {
		v := m[k]
		merged := false
		for i, y := range r {
			if sameKind(y, v) {
				r[i] = joinV(y, v)
				merged = true
				break
			}
		}
		if !merged {
			r = append(r, v)
		}
	}
	if len(r) == 1 {
		return r[0]
	}
	return r
}

func sameKind(a, b V) bool {
	switch x := a.(type) {
	case vStruct:
		y, ok := b.(vStruct)
		return ok && len(x.f) == len(y.f)
	case vTmpl:
		_, ok := b.(vTmpl)
		return ok
	case vRef:
		_, ok := b.(vRef)
		return ok
	case vInt, vRange:
		switch b.(type) {
		case vInt, vRange:
			return true
		}
	case vIface:
		y, ok := b.(vIface)
		return ok && types.Identical(x.t, y.t)
	}
	return false
}

// vkey is a canonical rendering; linear forms are printed as they are.
func vkey(v V) string {
	var w walker
	w.lin = func(l Lin) Lin { w.b.WriteString(l.String()); return l }
	w.obj = func(o int) int { w.b.WriteString("@" + strconv.Itoa(o)); return o }
	w.v(v)
	return w.b.String()
}

// shapeKey is vkey with integers ignored.
func shapeKey(v V) string {
	var w walker
	w.ints = true
	w.lin = func(l Lin) Lin { return l }
	w.obj = func(o int) int { return o }
	w.v(v)
	return w.b.String()
}

// walker visits a value in a fixed order, rendering the discrete part and
// rewriting linear forms and object numbers.
type muteBuilder struct {
	b    strings.Builder
	mute int
}

func (m *muteBuilder) WriteString(s string) (int, error) {
	if m.mute > 0 {
		return len(s), nil
	}
	return m.b.WriteString(s)
}
func (m *muteBuilder) WriteByte(c byte) error {
	if m.mute > 0 {
		return nil
	}
	return m.b.WriteByte(c)
}
func (m *muteBuilder) Write(p []byte) (int, error) {
	if m.mute > 0 {
		return len(p), nil
	}
	return m.b.Write(p)
}
func (m *muteBuilder) String() string { return m.b.String() }

type walker struct {
	b    muteBuilder
	lin  func(Lin) Lin
	obj  func(int) int
	ints bool // render all integers as #
}

func (w *walker) vs(xs []V) []V {
	r := make([]V, len(xs))
	for i := range xs {
		r[i] = w.v(xs[i])
		w.b.WriteByte(',')
	}
	return r
}

func (w *walker) v(v V) V {
	b := &w.b
	switch x := v.(type) {
	case nil:
		b.WriteByte('_')
	case vTop:
		b.WriteByte('?')
	case vBool:
		fmt.Fprint(b, bool(x))
	case vInt:
		if w.ints {
			b.WriteByte('#')
			return x
		}
		b.WriteByte('i')
		return vInt{w.lin(x.l)}
	case vRange:
		if w.ints {
			b.WriteByte('#')
			if x.glo != nil {
				b.WriteString(">=" + x.glo.String())
			}
			if x.ghi != nil {
				b.WriteString("<=" + x.ghi.String())
			}
			return x
		}
		fmt.Fprintf(b, "r%v%v", x.neg, x.set)
		if x.glo != nil {
			b.WriteString(">=" + x.glo.String())
		}
		if x.ghi != nil {
			b.WriteString("<=" + x.ghi.String())
		}
		if x.lo != nil {
			b.WriteString("lo")
			l := w.lin(*x.lo)
			x.lo = &l
		}
		if x.hi != nil {
			b.WriteString("hi")
			l := w.lin(*x.hi)
			x.hi = &l
		}
		return x
	case vStr:
		fmt.Fprintf(b, "%q", string(x))
	case vTerm:
		if x.class {
			b.WriteByte('~')
		}
		b.WriteString(x.op)
		if len(x.args) > 0 {
			b.WriteByte('(')
			x.args = w.vs(x.args)
			b.WriteByte(')')
		}
		return x
	case vNil:
		b.WriteString("nil")
	case vStruct:
		b.WriteByte('{')
		x.f = w.vs(x.f)
		b.WriteByte('}')
		return x
	case vPtr:
		b.WriteByte('*')
		x.obj = w.obj(x.obj)
		p := make([]pstep, len(x.path))
		for i, s := range x.path {
			fmt.Fprintf(b, ".%d", s.field)
			p[i] = s
			if s.field < 0 {
				p[i].idx = w.v(s.idx)
			}
		}
		x.path = p
		return x
	case vSlice:
		b.WriteByte('s')
		x.obj = w.obj(x.obj)
		x.lo = w.lin(x.lo)
		b.WriteByte(':')
		x.hi = w.lin(x.hi)
		if x.full {
			b.WriteByte('f')
		}
		return x
	case vText:
		b.WriteByte('t')
		x.s = w.v(x.s)
		return x
	case vMap:
		b.WriteByte('m')
		return vMap{w.obj(x.obj)}
	case vChan:
		b.WriteByte('h')
		return vChan{w.obj(x.obj)}
	case vIter:
		b.WriteByte('I')
		return vIter{w.obj(x.obj)}
	case vIface:
		b.WriteByte('<')
		b.WriteString(x.t.String())
		b.WriteByte('>')
		x.v = w.v(x.v)
		return x
	case vFunc:
		b.WriteString("func " + x.fn.String())
		b.WriteByte('[')
		x.binds = w.vs(x.binds)
		b.WriteByte(']')
		return x
	case vTuple:
		b.WriteByte('(')
		r := vTuple(w.vs(x))
		b.WriteByte(')')
		return r
	case vChoice:
		b.WriteByte('|')
		r := vChoice(w.vs(x))
		b.WriteByte('|')
		return r
	case vTmpl:
		b.WriteString("T[")
		r := make([]tseg, len(x.segs))
		for i, s := range x.segs {
			fmt.Fprintf(b, "%d%v", s.min, s.exact)
			r[i] = tseg{w.v(s.v), s.min, s.exact}
		}
		b.WriteByte(']')
		return vTmpl{r}
	case vRef:
		b.WriteString("&")
		return vRef{w.v(x.v)}
	default:
		undec("walker: %T", v)
	}
	return v
}

// words ---------------------------------------------------------------------

func (s *state) wlen(w []seg) Lin {
	l := Lin{}
	for _, g := range w {
		l = l.add(s.n(g.n))
	}
	return l
}

// norm drops empty segments and merges equal neighbours.
func (s *state) normWord(w []seg) []seg {
	var r []seg
	for _, g := range w {
		g.n = s.n(g.n)
		if g.n.eq(Lin{}) {
			continue
		}
		if len(r) > 0 && vkey(s.nv(r[len(r)-1].v)) == vkey(s.nv(g.v)) {
			r[len(r)-1].n = r[len(r)-1].n.add(g.n)
			continue
		}
		r = append(r, g)
	}
	return r
}

// nv normalises the linear forms in a value.
func (s *state) nv(v V) V {
	w := walker{lin: s.n, obj: func(o int) int { return o }}
	return w.v(v)
}

// subword is the part [lo,hi) of a word when the bounds fall on segment
// borders or inside segments in a way that is decided; it never splits the
// state and gives up (undecided) otherwise.
func (s *state) subword(w []seg, lo, hi Lin) []seg {
	var r []seg
	cum := Lin{}
	for _, g := range w {
		n := s.n(g.n)
		a, b := cum, cum.add(n) // segment [a,b)
		cum = b
		if s.ge0(a.sub(hi)) {
			break
		}
		if s.ge0(lo.sub(b)) {
			continue
		}
		from, to := a, b
		if s.ge0(lo.sub(a)) {
			from = lo
		} else if !s.ge0(a.sub(lo)) {
			undec("undecided slice bound")
		}
		if s.ge0(b.sub(hi)) {
			to = hi
		} else if !s.ge0(hi.sub(b)) {
			undec("undecided slice bound")
		}
		r = append(r, seg{g.v, s.n(to.sub(from))})
	}
	return s.normWord(r)
}

// cut splits the states so that position p is a segment border of the word
// of object id; the result pairs each state with the number of segments
// before p (the object is rewritten). p beyond the end yields -1.
type cutRes struct {
	st *state
	i  int
}

func (s *state) cut(id int, p Lin) []cutRes {
	var out []cutRes
	o := s.heap[id]
	var rec func(st *state, i int, cum Lin)
	rec = func(st *state, i int, cum Lin) {
		w := st.heap[id].w
		if len(out) > 100 {
			undec("the position in a slice has too many cases")
		}
		// p == cum ?
		lt, eq, gt := st.cmp(p, cum)
		if len(lt) > 0 {
			// cannot happen: p >= cum by construction
			if i == 0 {
				for _, x := range lt {
					out = append(out, cutRes{x, -2})
				}
			}
		}
		for _, x := range eq {
			out = append(out, cutRes{x, i})
		}
		for _, x := range gt {
			if i >= len(w) {
				out = append(out, cutRes{x, -1})
				continue
			}
			n := x.n(w[i].n)
			end := cum.add(n)
			lt, ge := x.less(p, end)
			for _, y := range lt {
				ob := y.mut(id)
				k := y.n(p.sub(cum))
				nw := append([]seg{}, ob.w[:i]...)
				nw = append(nw, seg{w[i].v, k}, seg{w[i].v, y.n(w[i].n.sub(k))})
				nw = append(nw, ob.w[i+1:]...)
				ob.w = nw
				out = append(out, cutRes{y, i + 1})
			}
			for _, y := range ge {
				rec(y, i+1, end)
			}
		}
	}
	_ = o
	rec(s, 0, Lin{})
	return out
}
