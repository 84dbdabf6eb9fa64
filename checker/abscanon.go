package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Canonical forms, subsumption and widening of abstract states.

var (
	cacheMu  sync.Mutex
	valueIDs = map[*ssa.Function]map[ssa.Value]int{}
)

// valueID numbers the registers of a function.
func valueID(v ssa.Value) int {
	fn := v.Parent()
	if fn == nil {
		return 0
	}
	cacheMu.Lock()
	defer cacheMu.Unlock()
	m := valueIDs[fn]
	if m == nil {
		m = map[ssa.Value]int{}
		for _, p := range fn.Params {
			m[p] = len(m) + 1
		}
		for _, p := range fn.FreeVars {
			m[p] = len(m) + 1
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if y, ok := in.(ssa.Value); ok {
					m[y] = len(m) + 1
				}
			}
		}
		valueIDs[fn] = m
	}
	return m[v]
}

type stateWalk struct {
	walker
	skel  bool
	omap  map[int]int
	queue []int
	n     *state
}

// rewrite walks the state in canonical order. lin rewrites linear forms.
// Objects are renumbered in order of first visit and unreachable ones are
// dropped. With skel, segments of non-focus content leave no trace in the key.
func (s *state) rewrite(lin func(Lin) Lin, skel bool) (*state, string) {
	return s.rewriteAt(lin, skel, func(int, ssa.Value, string) {})
}

// rewriteAt reports the register (of a frame) or ghost that is visited next.
func (s *state) rewriteAt(lin func(Lin) Lin, skel bool, at func(fr int, k ssa.Value, ghost string)) (*state, string) {
	w := &stateWalk{skel: skel, omap: map[int]int{}}
	w.walker.lin = func(l Lin) Lin { return lin(s.n(l)) }
	w.walker.obj = func(o int) int {
		n, ok := w.omap[o]
		if !ok {
			n = len(w.omap) + 1
			w.omap[o] = n
			w.queue = append(w.queue, o)
		}
		w.b.WriteString("@")
		fmt.Fprint(&w.b, n)
		return n
	}
	r := &state{heap: map[int]*obj{}, sub: map[int]Lin{}, facts: s.facts, ghost: map[string]V{}, glob: map[*ssa.Global]int{}, impr: s.impr, loose: s.loose, g: s.g, notes: s.notes}
	b := &w.b
	var gs []string
	for k := range s.ghost {
		gs = append(gs, k)
	}
	sort.Strings(gs)
	for _, k := range gs {
		b.WriteString("\n$" + k + "=")
		at(-1, nil, k)
		r.ghost[k] = w.v(s.ghost[k])
	}
	var fs []string
	for k, v := range s.facts {
		fs = append(fs, fmt.Sprint(k, v))
	}
	sort.Strings(fs)
	fmt.Fprintf(b, "\nfacts %v notes %v g%d", fs, s.notes, s.g)
	var gl []*ssa.Global
	for g := range s.glob {
		gl = append(gl, g)
	}
	sort.Slice(gl, func(i, j int) bool { return gl[i].Name() < gl[j].Name() })
	for _, g := range gl {
		b.WriteString("\nglobal " + g.Name() + " ")
		r.glob[g] = w.obj(s.glob[g])
	}
	for i, f := range s.frames {
		fmt.Fprintf(b, "\nframe %d %s:", i, f.fn)
		nf := &frame{fn: f.fn, env: map[ssa.Value]V{}}
		var ks []ssa.Value
		for k := range f.env {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return valueID(ks[i]) < valueID(ks[j]) })
		for _, k := range ks {
			fmt.Fprintf(b, " %s=", k.Name())
			at(i, k, "")
			nf.env[k] = w.v(f.env[k])
		}
		for _, d := range f.defers {
			fmt.Fprintf(b, " defer %d ", valueIDofInstr(d.in))
			d.fn = w.v(d.fn)
			d.args = w.vs(d.args)
			nf.defers = append(nf.defers, d)
		}
		r.frames = append(r.frames, nf)
	}
	at(-1, nil, "")
	if s.loose {
		b.WriteString("\nloose")
	}
	for len(w.queue) > 0 {
		id := w.queue[0]
		w.queue = w.queue[1:]
		o := s.heap[id]
		if o == nil {
			undec("dangling object %d", id)
		}
		c := &obj{kind: o.kind, typ: o.typ, tag: o.tag, g: o.g}
		fmt.Fprintf(b, "\n@%d %c %s g%d: ", w.omap[id], o.kind, o.tag, o.g)
		if o.kind == 't' {
			c.pos = w.lin(o.pos)
		}
		if o.v != nil {
			c.v = w.v(o.v)
		}
		for _, g := range o.w {
			if w.skel && !s.isFocus(g.v) {
				w.b.mute++
				v := w.v(g.v)
				n := w.lin(g.n)
				w.b.mute--
				c.w = append(c.w, seg{v, n})
				continue
			}
			b.WriteString(" [")
			v := w.v(g.v)
			b.WriteString("]")
			c.w = append(c.w, seg{v, w.lin(g.n)})
		}
		ents := append([]ment{}, o.ents...)
		sort.SliceStable(ents, func(i, j int) bool { return s.entKey(ents[i].k) < s.entKey(ents[j].k) })
		for _, e := range ents {
			b.WriteString(" <")
			k := w.v(e.k)
			fmt.Fprintf(b, "%v->", e.ok)
			v := V(nil)
			if e.ok {
				v = w.v(e.v)
			}
			c.ents = append(c.ents, ment{k, v, e.ok})
			b.WriteString(">")
		}
		rest := append([]mrest{}, o.rest...)
		sort.SliceStable(rest, func(i, j int) bool { return vkey(rest[i].k) < vkey(rest[j].k) })
		for _, e := range rest {
			if w.skel {
				w.b.mute++
			}
			fmt.Fprintf(b, " ~%v", e.present)
			e.k = w.v(e.k)
			e.v = w.v(e.v)
			e.n = w.lin(e.n)
			c.rest = append(c.rest, e)
			if w.skel {
				w.b.mute--
			}
		}
		r.heap[w.omap[id]] = c
	}
	r.next = len(w.omap) + 1
	return r, w.b.String()
}

func valueIDofInstr(in ssa.Instruction) int {
	if v, ok := in.(ssa.Value); ok {
		return valueID(v)
	}
	return int(in.Pos())
}

// canon normalises the state; with collapse, non-focus content is summarised
// so that only finitely many discrete shapes remain.
func (s *state) canon(collapse bool) (*state, string) {
	if collapse {
		s.collapse()
	} else {
		for id, o := range s.heap {
			if len(o.w) > 0 {
				c := *o
				c.w = s.normWord(o.w)
				s.heap[id] = &c
			}
		}
	}
	r, key := s.rewrite(func(l Lin) Lin { return l }, collapse)
	if collapse {
		key += r.phases()
	}
	return r, key
}

// phases tells on which side of the tracked elements of the sequences the
// integers of the state are, as far as that is definite. States that differ
// in it are kept apart.
func (s *state) phases() string {
	r, _ := s.phaseScan()
	return r
}

// splitPhases splits the state until each phase is definite.
func (s *state) splitPhases() []*state {
	var out []*state
	var rec func(t *state, n int)
	rec = func(t *state, n int) {
		_, open := t.phaseScan()
		if len(open) == 0 || n == 0 {
			out = append(out, t)
			return
		}
		lt, eq, gt := t.cmp(open[0][0], open[0][1])
		for _, l := range [][]*state{lt, eq, gt} {
			for _, u := range l {
				rec(u, n-1)
			}
		}
	}
	rec(s, 6)
	return out
}

func (s *state) phaseScan() (string, [][2]Lin) {
	var open [][2]Lin
	ghost := map[int]bool{}
	for _, g := range s.ghost {
		scanV(g, func(v V) {
			switch v := v.(type) {
			case vSlice:
				ghost[v.obj] = true
			case vPtr:
				if o := s.heap[v.obj]; o != nil && o.kind == 'a' {
					ghost[v.obj] = true
				}
			}
		})
	}
	for _, f := range s.frames { // in use all the same
		for _, v := range f.env {
			scanV(v, func(v V) {
				if x, ok := v.(vSlice); ok {
					delete(ghost, x.obj)
				}
			})
		}
	}
	type posn struct {
		obj int // 0: a ghost
		at  Lin
	}
	var pos []posn
	for id := 1; id < s.next; id++ {
		o := s.heap[id]
		if o == nil || o.kind != 'a' || ghost[id] {
			continue
		}
		cum := Lin{}
		for _, g := range o.w {
			if s.isFocus(g.v) {
				pos = append(pos, posn{id, s.n(cum)})
			}
			cum = cum.add(g.n)
		}
	}
	var gs []string
	for k := range s.ghost {
		if strings.HasPrefix(k, "@") {
			gs = append(gs, k)
		}
	}
	sort.Strings(gs)
	for _, k := range gs {
		if v, ok := s.ghost[k].(vInt); ok {
			pos = append(pos, posn{0, s.n(v.l)})
		}
	}
	if len(pos) == 0 {
		return "", nil
	}
	var b strings.Builder
	look := func(l Lin, sel func(obj int) bool) {
		for _, p := range pos {
			if sel != nil && !sel(p.obj) {
				continue
			}
			d := s.n(l.sub(p.at))
			switch {
			case s.lt0(d):
				b.WriteByte('<')
			case d.eq(Lin{}):
				b.WriteByte('=')
			case s.ge0(d.addc(-1)):
				b.WriteByte('>')
			default:
				b.WriteByte('?')
				open = append(open, [2]Lin{l, p.at})
			}
		}
		b.WriteByte(' ')
	}
	for _, f := range s.frames {
		var ks []ssa.Value
		for k, v := range f.env {
			if _, ok := v.(vInt); ok {
				ks = append(ks, k)
			}
		}
		sort.Slice(ks, func(i, j int) bool { return valueID(ks[i]) < valueID(ks[j]) })
		for _, k := range ks {
			u := intUses(k)
			if u.any {
				look(f.env[k].(vInt).l, nil)
				continue
			}
			objs := map[int]bool{}
			for _, c := range u.seqs {
				scanV(f.env[c], func(v V) {
					switch v := v.(type) {
					case vSlice:
						objs[v.obj] = true
					case vPtr:
						objs[v.obj] = true
					case vText:
						scanV(v.s, func(v V) {
							if v, ok := v.(vSlice); ok {
								objs[v.obj] = true
							}
						})
					}
				})
				if f.env[c] == nil { // not live here, or a constant
					objs = nil
					break
				}
			}
			look(f.env[k].(vInt).l, func(o int) bool {
				if o == 0 {
					return u.key
				}
				return objs == nil && len(u.seqs) > 0 || objs[o]
			})
		}
	}
	for id := 1; id < s.next; id++ {
		if o := s.heap[id]; o != nil && o.kind == 'c' {
			scanV(o.v, func(v V) {
				if x, ok := v.(vInt); ok {
					look(x.l, nil)
				}
			})
		}
	}
	return "\nphases " + b.String(), open
}

// intUse tells what an integer register is used for.
type intUse struct {
	any  bool        // it gets out of the function
	key  bool        // a key of a map, or an argument of a call
	seqs []ssa.Value // sequences that it indexes
	cmp  []ssa.Value // integers that it is compared with
}

var intUseCache = map[ssa.Value]*intUse{}

func intUses(v ssa.Value) *intUse {
	cacheMu.Lock()
	defer cacheMu.Unlock()
	if u, ok := intUseCache[v]; ok {
		return u
	}
	u := &intUse{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	seq := func(c ssa.Value) {
		for {
			if l, ok := c.(*ssa.UnOp); ok && l.Op == token.MUL {
				u.any = true // in memory
				return
			}
			break
		}
		u.seqs = append(u.seqs, c)
	}
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			u.any = true
			return
		}
		for _, in := range *refs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.Convert, *ssa.ChangeType:
				walk(in.(ssa.Value))
			case *ssa.BinOp:
				switch in.Op {
				case token.ADD, token.SUB:
					walk(in)
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					if in.X == v {
						u.cmp = append(u.cmp, in.Y)
					} else {
						u.cmp = append(u.cmp, in.X)
					}
				default:
					u.any = true
				}
			case *ssa.IndexAddr:
				seq(in.X)
			case *ssa.Index:
				seq(in.X)
			case *ssa.Slice:
				seq(in.X)
			case *ssa.Lookup:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					u.key = true
				} else {
					seq(in.X)
				}
			case *ssa.MapUpdate:
				u.key = true
			case *ssa.Call:
				switch f := in.Call.Value.(type) {
				case *ssa.Builtin:
					if f.Name() == "min" || f.Name() == "max" {
						walk(in)
					} else {
						u.any = true
					}
				default:
					if in.Call.IsInvoke() {
						u.key = true
					} else {
						u.any = true
					}
				}
			case *ssa.DebugRef:
			default:
				u.any = true
			}
		}
	}
	walk(v)
	intUseCache[v] = u
	return u
}

func (s *state) collapse() {
	// decide focus before rewriting anything: references are needed
	var ids []int
	for id := range s.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	type job struct {
		id   int
		w    []seg
		ents []ment
		rest []mrest
	}
	var jobs []job
	for _, id := range ids {
		o := s.heap[id]
		if len(o.w) == 0 && len(o.ents) == 0 && len(o.rest) == 0 {
			continue
		}
		j := job{id: id}
		for _, g := range s.normWord(o.w) {
			g.v = s.nv(g.v)
			if !s.isFocus(g.v) {
				g.v = s.tree(g.v, 0)
				if k := len(j.w) - 1; k >= 0 && !s.isFocus(j.w[k].v) && shapeKey(j.w[k].v) == shapeKey(g.v) {
					j.w[k] = seg{joinV(j.w[k].v, g.v), j.w[k].n.add(g.n)}
					continue
				}
			}
			j.w = append(j.w, g)
		}
		// at most three non-focus segments in a row
		var w []seg
		run := 0
		for _, g := range j.w {
			if s.isFocus(g.v) {
				run = 0
			} else {
				run++
			}
			if run > 3 {
				k := len(w) - 1
				w[k] = seg{joinV(w[k].v, g.v), w[k].n.add(g.n)}
				continue
			}
			w = append(w, g)
		}
		j.w = w
		rest := append([]mrest{}, o.rest...)
		for i := range rest {
			rest[i].v = s.tree(rest[i].v, 0)
		}
		j.rest = rest
		for _, e := range o.ents {
			if s.keyFocus(e.k) {
				j.ents = append(j.ents, e)
				continue
			}
			if e.ok {
				j.rest = addRest(j.rest, s.tree(e.k, 0), s.tree(e.v, 0), s)
			}
		}
		jobs = append(jobs, j)
	}
	for _, j := range jobs {
		o := s.mut(j.id)
		o.w, o.ents, o.rest = j.w, j.ents, j.rest
	}
}

// entKey orders the entries of a map independently of the names of atoms.
func (s *state) entKey(k V) string {
	x, ok := k.(vInt)
	if !ok {
		return vkey(k)
	}
	var gs []string
	for g, v := range s.ghost {
		if p, ok := v.(vInt); ok && s.eqLin(x.l, p.l) {
			gs = append(gs, "$"+g)
		}
	}
	if len(gs) == 0 {
		return vkey(k)
	}
	sort.Strings(gs)
	return gs[0]
}

// keyFocus: keys that keep their own map entry.
func (s *state) keyFocus(k V) bool {
	if _, ok := k.(vStr); ok {
		return true
	}
	if x, ok := k.(vInt); ok {
		return s.ghostInt(x.l)
	}
	return s.isFocus(k)
}

func addRest(rest []mrest, k, v V, s *state) []mrest {
	if _, ok := k.(vInt); ok {
		k = vRange{neg: true}
	}
	if _, ok := k.(vRange); ok {
		k = vRange{neg: true}
	}
	kk := vkey(k)
	for i := range rest {
		if vkey(rest[i].k) == kk {
			rest[i].v = joinV(rest[i].v, s.tree(v, 0))
			if !rest[i].present {
				rest[i].n = fresh()
			}
			return rest
		}
	}
	return append(rest, mrest{k: k, v: s.tree(v, 0), n: fresh()})
}

// align makes the non-focus parts of two canonical states (with equal
// skeletons) agree; it returns false when that is not possible.
func align(a, b *state) bool {
	if len(a.heap) != len(b.heap) {
		return false
	}
	for id := 1; id < a.next; id++ {
		oa, ob := a.heap[id], b.heap[id]
		if oa == nil || ob == nil {
			return false
		}
		if len(oa.w) > 0 || len(ob.w) > 0 {
			wa, wb, ok := alignWords(a, b, oa.w, ob.w)
			if !ok {
				return false
			}
			a.mut(id).w = wa
			b.mut(id).w = wb
		}
		if len(oa.rest) > 0 || len(ob.rest) > 0 {
			ca, cb := a.mut(id), b.mut(id)
			ca.rest, cb.rest = alignRest(ca.rest, cb.rest)
		}
	}
	return true
}

func alignRest(a, b []mrest) ([]mrest, []mrest) {
	find := func(r []mrest, k V) int {
		for i := range r {
			if vkey(r[i].k) == vkey(k) {
				return i
			}
		}
		return -1
	}
	for i := range a {
		j := find(b, a[i].k)
		if j < 0 {
			b = append(b, mrest{k: a[i].k, v: a[i].v, present: a[i].present})
			j = len(b) - 1
		}
		v := joinV(a[i].v, b[j].v)
		p := a[i].present && b[j].present
		a[i].v, b[j].v = v, v
		a[i].present, b[j].present = p, p
	}
	for _, e := range b {
		if find(a, e.k) < 0 {
			a = append(a, mrest{k: e.k, v: e.v, present: e.present})
		}
	}
	srt := func(r []mrest) []mrest {
		sort.SliceStable(r, func(i, j int) bool { return vkey(r[i].k) < vkey(r[j].k) })
		return r
	}
	return srt(a), srt(b)
}

func alignWords(sa, sb *state, a, b []seg) (ra, rb []seg, ok bool) {
	gaps := func(s *state, w []seg) (g [][]seg, f []seg) {
		cur := []seg{}
		for _, x := range w {
			if s.isFocus(x.v) {
				g = append(g, cur)
				f = append(f, x)
				cur = nil
			} else {
				cur = append(cur, x)
			}
		}
		return append(g, cur), f
	}
	ga, fa := gaps(sa, a)
	gb, fb := gaps(sb, b)
	if len(fa) != len(fb) {
		return nil, nil, false
	}
	for i := range ga {
		x, y := alignGap(sa, sb, ga[i], gb[i])
		ra = append(ra, x...)
		rb = append(rb, y...)
		if i < len(fa) {
			ra = append(ra, fa[i])
			rb = append(rb, fb[i])
		}
	}
	return ra, rb, true
}

func alignGap(sa, sb *state, a, b []seg) (ra, rb []seg) {
	// longest common subsequence by shape
	k := func(g seg) string { return shapeKey(g.v) }
	n, m := len(a), len(b)
	l := make([][]int, n+1)
	for i := range l {
		l[i] = make([]int, m+1)
	}
	for i := n - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			if k(a[i]) == k(b[j]) {
				l[i][j] = l[i+1][j+1] + 1
			} else {
				l[i][j] = max(l[i+1][j], l[i][j+1])
			}
		}
	}
	i, j := 0, 0
	for i < n || j < m {
		switch {
		case i < n && j < m && k(a[i]) == k(b[j]):
			v := joinV(a[i].v, b[j].v)
			ra = append(ra, seg{v, a[i].n})
			rb = append(rb, seg{v, b[j].n})
			i++
			j++
		case i < n && (j >= m || l[i+1][j] > l[i][j+1] || l[i+1][j] == l[i][j+1] && k(a[i]) <= k(b[j])):
			ra = append(ra, a[i])
			rb = append(rb, seg{a[i].v, Lin{}})
			i++
		default:
			ra = append(ra, seg{b[j].v, Lin{}})
			rb = append(rb, b[j])
			j++
		}
	}
	if len(ra) > 3 || repeats(ra) && !(len(a) == len(ra) && len(b) == len(ra)) {
		col := func(w []seg) []seg {
			r := w[0]
			for _, g := range w[1:] {
				r = seg{joinV(r.v, g.v), r.n.add(g.n)}
			}
			return []seg{r}
		}
		ra, rb = col(ra), col(rb)
		v := joinV(ra[0].v, rb[0].v)
		ra[0].v, rb[0].v = v, v
	}
	return
}

// repeats tells whether content of one segment also occurs in another one.
func repeats(w []seg) bool {
	for i := range w {
		for j := range w {
			if i != j && vkey(joinV(w[i].v, w[j].v)) == vkey(w[i].v) {
				return true
			}
		}
	}
	return false
}

func (s *state) slots() ([]Lin, string) {
	var ls []Lin
	_, key := s.rewrite(func(l Lin) Lin { ls = append(ls, l); return l }, false)
	return ls, key
}

// linear sets: base + sum of generators
type linset struct {
	base []int
	gens [][]int
}

func toLinset(ls []Lin) linset {
	var r linset
	gi := map[int]int{}
	for i, l := range ls {
		r.base = append(r.base, l.C)
		for _, t := range l.T {
			g, ok := gi[t.A]
			if !ok {
				g = len(r.gens)
				gi[t.A] = g
				r.gens = append(r.gens, make([]int, len(ls)))
			}
			r.gens[g][i] = t.K
		}
	}
	return r
}

func (r linset) lins() []Lin {
	out := make([]Lin, len(r.base))
	for i, c := range r.base {
		out[i].C = c
	}
	for _, g := range r.gens {
		a := newAtom()
		for i, k := range g {
			if k != 0 {
				out[i].T = append(out[i].T, linTerm{a, k})
			}
		}
	}
	return out
}

func isZero(v []int) bool {
	for _, x := range v {
		if x != 0 {
			return false
		}
	}
	return true
}

// cone tells whether t is a non-negative integer combination of gens.
func cone(t []int, gens [][]int, fuel *int) bool {
	if isZero(t) {
		return true
	}
	if len(gens) == 0 || *fuel <= 0 {
		return false
	}
	*fuel--
	// a component covered by generators of one sign only must have that sign
	for i, x := range t {
		p, n := false, false
		for _, g := range gens {
			p = p || g[i] > 0
			n = n || g[i] < 0
		}
		if x > 0 && !p || x < 0 && !n {
			return false
		}
	}
	g := gens[0]
	// try multiplicities of the first generator
	cur := append([]int{}, t...)
	for k := 0; k < 12; k++ {
		if cone(cur, gens[1:], fuel) {
			return true
		}
		for i := range cur {
			cur[i] -= g[i]
		}
	}
	return false
}

func (r linset) contains(o linset) bool {
	fuel := 4000
	d := make([]int, len(r.base))
	for i := range d {
		d[i] = o.base[i] - r.base[i]
	}
	if !cone(d, r.gens, &fuel) {
		return false
	}
	for _, g := range o.gens {
		fuel = 4000
		if !cone(g, r.gens, &fuel) {
			return false
		}
	}
	return true
}

func (r linset) reduce() linset {
	var gens [][]int
	seen := map[string]bool{}
	for _, g := range r.gens {
		if k := fmt.Sprint(g); !isZero(g) && !seen[k] {
			seen[k] = true
			gens = append(gens, g)
		}
	}
	for i := 0; i < len(gens); {
		rest := append(append([][]int{}, gens[:i]...), gens[i+1:]...)
		fuel := 4000
		if cone(gens[i], rest, &fuel) {
			gens = rest
		} else {
			i++
		}
	}
	return linset{r.base, gens}
}

// joinLinsets is the smallest linear set found that contains both.
// Below level 2, sets with incomparable bases are not joined: the result then
// keeps every linear equation that holds in both. At level 0 it also keeps the
// lower bounds that hold in both.
func joinLinsets(a, b linset, isLen []bool, close, rel []funcl, widen bool, level int) (linset, bool) {
	n := len(a.base)
	base := make([]int, n)
	same, ab, ba := true, true, true
	for i := range base {
		if isLen[i] {
			if a.base[i] > b.base[i] {
				ab = false
			}
			if b.base[i] > a.base[i] {
				ba = false
			}
		}
		same = same && a.base[i] == b.base[i]
	}
	gens := append(append([][]int{}, a.gens...), b.gens...)
	diff := func(x, y []int) []int {
		d := make([]int, n)
		for i := range d {
			d[i] = x[i] - y[i]
		}
		return d
	}
	switch {
	case same:
		copy(base, a.base)
	case ab:
		copy(base, a.base)
		gens = append(gens, diff(b.base, base))
	case ba:
		copy(base, b.base)
		gens = append(gens, diff(a.base, base))
	default:
		if level < 2 {
			return linset{}, false
		}
		if c := meetBase(a, b, isLen); c != nil {
			copy(base, c)
		} else {
			for i := range base {
				base[i] = min(a.base[i], b.base[i])
			}
		}
		gens = append(gens, diff(a.base, base), diff(b.base, base))
	}
	if close != nil {
		if nb := lowerBase(base, a, b, gens, isLen, rel); nb != nil {
			if level == 0 {
				return linset{}, false
			}
			base = nb
			gens = append(append([][]int{}, a.gens...), b.gens...)
			gens = append(gens, diff(a.base, base), diff(b.base, base))
		}
		if g := closeCone(linset{base, gens}.reduce().gens, close); g != nil {
			gens = g
		}
	}
	if widen { // every component that is not constant becomes independent
		var ng [][]int
		for i := range base {
			nonzero := false
			for _, g := range gens {
				nonzero = nonzero || g[i] != 0
			}
			if nonzero {
				u := make([]int, n)
				u[i] = 1
				ng = append(ng, u)
				if !isLen[i] {
					d := make([]int, n)
					d[i] = -1
					ng = append(ng, d)
				}
			}
		}
		gens = ng
	}
	return linset{base, gens}.reduce(), true
}

// arrSlots tells for every slot the array that it is a segment length of: 0
// for none, -1 for the size of a part of a map.
//
// It also returns the inequalities between an integer register and the
// positions that it is compared with or that it indexes.
func (s *state) arrSlots() ([]int, []funcl) {
	const tag = -1000
	n := s.clone()
	for id := range n.heap {
		o := n.mut(id)
		for i := range o.w {
			o.w[i].n = n.n(o.w[i].n).add(la(tag - id))
		}
		for i := range o.rest {
			o.rest[i].n = n.n(o.rest[i].n).add(la(tag))
		}
	}
	var out []int
	type reg struct {
		f int
		k ssa.Value
	}
	slots := map[reg][]int{}
	var keys []reg
	var ghosts []int
	cur, gh := reg{-1, nil}, ""
	n.rewriteAt(func(l Lin) Lin {
		a := 0
		for _, t := range l.T {
			if t.A == tag {
				a = -1
			} else if t.A < tag {
				a = tag - t.A
			}
		}
		if cur.k != nil {
			if slots[cur] == nil {
				keys = append(keys, cur)
			}
			slots[cur] = append(slots[cur], len(out))
		} else if strings.HasPrefix(gh, "@") {
			ghosts = append(ghosts, len(out))
		}
		out = append(out, a)
		return l
	}, false, func(f int, k ssa.Value, g string) {
		cur, gh = reg{f, k}, g
	})
	var rel []funcl
	unit := func(i int) funcl {
		f := make(funcl, len(out))
		f[i] = 1
		return f
	}
	rels := func(f funcl, i int) { // f >= i, f <= i
		g, h := make(funcl, len(out)), make(funcl, len(out))
		for j, c := range f {
			g[j], h[j] = c, -c
		}
		g[i]--
		h[i]++
		rel = append(rel, g, h)
	}
	for _, r := range keys {
		if _, ok := n.frames[r.f].env[r.k].(vInt); !ok {
			continue
		}
		i := slots[r][0]
		rel = append(rel, unit(i))
		u := intUses(r.k)
		for _, c := range u.cmp {
			if q := slots[reg{r.f, c}]; len(q) == 1 && q[0] != i {
				rels(unit(q[0]), i)
			}
		}
		for _, c := range u.seqs {
			for _, q := range slots[reg{r.f, c}] {
				rels(unit(q), i)
			}
			if sl, ok := n.frames[r.f].env[c].(vSlice); ok {
				sum := make(funcl, len(out))
				for j, a := range out {
					if a == sl.obj {
						sum[j]++
						rels(sum, i)
					}
				}
			}
		}
		if u.key || u.any {
			for _, q := range ghosts {
				rels(unit(q), i)
			}
		}
	}
	return out, rel
}

// sliceRels returns the inequalities between the bounds of slices and the
// segments of their arrays. The slots are those of arrSlots.
func (s *state) sliceRels(arr []int) []funcl {
	const tag = -1000000
	n := s.clone()
	k := 0
	id := map[int]int{} // marker -> array
	mark := func(v V) V {
		if sl, ok := v.(vSlice); ok {
			id[tag-k] = sl.obj
			sl.lo, sl.hi = n.n(sl.lo).add(la(tag-k)), n.n(sl.hi).add(la(tag-k))
			k++
			return sl
		}
		return v
	}
	for _, f := range n.frames {
		for r, v := range f.env {
			f.env[r] = mark(v)
		}
	}
	for g, v := range n.ghost {
		n.ghost[g] = mark(v)
	}
	at := map[int][]int{}
	var ms []int
	i := 0
	n.rewriteAt(func(l Lin) Lin {
		for _, t := range l.T {
			if t.A <= tag {
				if at[t.A] == nil {
					ms = append(ms, t.A)
				}
				at[t.A] = append(at[t.A], i)
			}
		}
		i++
		return l
	}, false, func(int, ssa.Value, string) {})
	if i != len(arr) {
		return nil
	}
	var out []funcl
	for _, m := range ms {
		q := at[m]
		if len(q) != 2 {
			continue
		}
		f := make(funcl, len(arr))
		f[q[0]], f[q[1]] = -1, 1
		out = append(out, f) // hi >= lo
		for _, p := range q {
			sum := make(funcl, len(arr))
			for j, a := range arr {
				if a == id[m] {
					sum[j]++
					g, h := make(funcl, len(arr)), make(funcl, len(arr))
					for z, c := range sum {
						g[z], h[z] = c, -c
					}
					g[p]--
					h[p]++
					out = append(out, g, h)
				}
			}
		}
	}
	return out
}

// subsumed: every concrete state of b is one of a. Both canonical.
func subsumed(a, b *state) bool {
	x, y := a.clone(), b.clone()
	if !align(x, y) {
		return false
	}
	la, ka := x.slots()
	lb, kb := y.slots()
	if ka != kb || len(la) != len(lb) {
		return false
	}
	// the alignment may have joined content into a
	_, k0 := a.rewrite(func(l Lin) Lin { return l }, false)
	_, k1 := stripEmpty(x).rewrite(func(l Lin) Lin { return l }, false)
	if k0 != k1 {
		return false
	}
	return toLinset(la).contains(toLinset(lb))
}

func stripEmpty(s *state) *state {
	n := s.clone()
	for id, o := range n.heap {
		if len(o.w) == 0 && len(o.rest) == 0 {
			continue
		}
		c := *o
		c.w = nil
		for _, g := range o.w {
			if !n.n(g.n).eq(Lin{}) {
				c.w = append(c.w, g)
			}
		}
		c.rest = nil
		for _, g := range o.rest {
			if !(n.n(g.n).eq(Lin{}) && !g.present) {
				c.rest = append(c.rest, g)
			}
		}
		n.heap[id] = &c
	}
	return n
}

// joinStates generalises two canonical states with equal skeletons; nil when
// they cannot be joined.
func joinStates(a, b *state, close, widen bool, level int, cells bool) *state {
	x, y := a.clone(), b.clone()
	if !align(x, y) {
		return nil
	}
	la, ka := x.slots()
	lb, kb := y.slots()
	if ka != kb || len(la) != len(lb) {
		if debugJoin {
			fmt.Println("JOIN FAILS", firstDiff(ka, kb))
		}
		return nil
	}
	arr, rel := x.arrSlots()
	isLen := make([]bool, len(arr))
	for i, a := range arr {
		isLen[i] = a != 0
	}
	var fs []funcl
	if close {
		fs = templates(arr)
	}
	ja, jb := toLinset(la), toLinset(lb)
	j, ok := joinLinsets(ja, jb, isLen, fs, rel, widen, level)
	if !ok {
		return nil
	}
	if close && !widen && cells {
		if p, ok := projJoin(ja, jb, j.base, arr, isLen, append(rel, x.sliceRels(arr)...), level); ok {
			j = p
			if debugJoin {
				fmt.Println("PROJECTED")
			}
		} else if level < 2 {
			if debugJoin {
				fmt.Printf("NO JOIN level %d\nA %v\nB %v\n", level, x, y)
			}
			return nil
		}
	}
	ls := j.lins()
	i := 0
	r, _ := x.rewrite(func(Lin) Lin { i++; return ls[i-1] }, false)
	if r.impr == "" {
		r.impr = b.impr
	}
	if widen {
		r.imprecise("widened")
	}
	if level == 2 {
		r.imprecise("joined incomparable states")
	}
	return r
}

var debugMany = os.Getenv("VG_MANY") != ""

var debugJoin = os.Getenv("VG_JOIN") != ""

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	j := strings.LastIndexByte(a[:i], '\n') + 1
	end := func(s string) string { return s[j:min(len(s), i+60)] }
	return fmt.Sprintf("%q / %q", end(a), end(b))
}
