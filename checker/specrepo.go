package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Contracts of the repository operations (C05, C07-C13, C21, C32).
//
// A scenario fixes which of a few arbitrary names are indexes, which one is an
// alias and in which order its targets contain the named indexes. All other
// names, indexes, targets and the numbers of them are arbitrary.

type repoCase struct {
	names []V             // p, q, e, x
	idx   map[string]bool // by vkey
	alias V               // the tracked alias, or nil
	tgts  []V             // tracked targets, in order
	other []V             // further names that are aliases (of other indexes)
	also  V               // a further alias, of every named index
	label string
	empty bool // no untracked index, alias or target
}

func nm(v V) string { return vkey(v) }

func (c *repoCase) isIdx(v V) bool { return c.idx[nm(v)] }

func (c *repoCase) isAlias(v V) bool {
	if c.alias != nil && nm(c.alias) == nm(v) {
		return true
	}
	for _, o := range c.other {
		if nm(o) == nm(v) {
			return true
		}
	}
	return c.also != nil && nm(c.also) == nm(v)
}

type repoRun struct {
	*scenario
	c       *repoCase
	recv    vPtr
	recvT   types.Type
	indices func(types.Type) bool // which tables
	aliases func(types.Type) bool
	rets    string // how searches return: "" results, "nil" no results
}

var (
	clsO    = class("other")      // names of the untracked indexes
	clsA    = class("otheralias") // names of the untracked aliases
	clsN    = class("item")       // untracked search results
	symDoc  = sym("doc")
	symT    = sym("terms")
	symEng  = sym("engine")
	symBld  = sym("builder")
	evPut   = "put"
	evBuild = "build"
	evSrch  = "search"
)

func idxOf(n V) V { return app("index", n) }

func (st *state) event(v V) {
	p, ok := st.ghost["ev"].(vPtr)
	if !ok {
		id := st.alloc(&obj{kind: 'a'})
		p = vPtr{obj: id}
		st.ghost["ev"] = p
	}
	o := st.mut(p.obj)
	o.w = st.normWord(append(o.w, seg{v, lc(1)}))
}

func (st *state) events() []seg {
	if p, ok := st.ghost["ev"].(vPtr); ok {
		return st.normWord(st.heap[p.obj].w)
	}
	return nil
}

// repoHook models the components a repository works with.
func (rr *repoRun) hook(x *interp, st *state, c *callInfo) ([]res, bool) {
	switch c.kind {
	case "invoke":
		switch c.name {
		case "Put":
			if len(c.args) == 1 {
				st.event(app(evPut, c.recv, docKey(c.args[0])))
				return one(st, c.recv), true
			}
		case "Search":
			if len(c.args) == 2 {
				if nm(c.args[0]) != nm(symT) || nm(c.args[1]) != nm(symEng) {
					st.event(app("wrong search", c.recv))
				}
				st.event(app(evSrch, c.recv))
				if rr.rets == "nil" {
					return one(st, vNil{}), true
				}
				var w []seg
				if termClass(c.recv) {
					w = []seg{{clsN, rr.fresh()}}
				} else {
					w = []seg{{clsN, rr.fresh()}, {app("hit1", c.recv), lc(1)}, {clsN, rr.fresh()}, {app("hit2", c.recv), lc(1)}, {clsN, rr.fresh()}}
				}
				return one(st, st.array(w...)), true
			}
		}
	case "value":
		if nm(c.recv) == nm(symBld) && len(c.args) == 1 {
			st.event(app(evBuild, c.args[0]))
			return one(st, app("newindex", c.args[0])), true
		}
	}
	return nil, false
}

// docKey names the document that is put.
func docKey(v V) V {
	if nm(v) == nm(symDoc) {
		return symDoc
	}
	if t, ok := v.(vTerm); ok && !t.class {
		return t
	}
	return class("another document")
}

func isMapType(t types.Type, elem func(types.Type) bool) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String && elem(m.Elem())
}

func isIndexTable(t types.Type) bool {
	return isMapType(t, func(e types.Type) bool {
		n, ok := types.Unalias(e).(*types.Named)
		return ok && n.Obj().Name() == "Index"
	})
}

func isAliasTable(t types.Type) bool {
	return isMapType(t, func(e types.Type) bool {
		s, ok := e.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	})
}

// start builds the abstract repository of a case.
func (rr *repoRun) start(w *World) *state {
	rr.x.hook = rr.hook
	st := newState()
	ctor := w.mustFunc("NewIndexRepo")
	rs := rr.runQuiet(ctor, st, symBld)
	if len(rs) != 1 {
		undec("NewIndexRepo has %d outcomes", len(rs))
	}
	st = rs[0].st
	recv, ok := rs[0].v.(vPtr)
	if !ok {
		undec("NewIndexRepo does not return a pointer")
	}
	rr.recv = recv
	rr.recvT = w.mustType("IndexRepo")
	it := rr.x.findField(st, recv, rr.recvT, isIndexTable, 0)
	at := rr.x.findField(st, recv, rr.recvT, isAliasTable, 0)
	if len(it) != 1 || len(at) != 1 {
		undec("the repository holds %d index tables and %d alias tables", len(it), len(at))
	}
	rr.indices, rr.aliases = isIndexTable, isAliasTable
	st.ghost["repo"] = recv
	im, ok1 := st.at(it[0]).(vMap)
	am, ok2 := st.at(at[0]).(vMap)
	if !ok1 || !ok2 {
		undec("the tables of a new repository are not maps")
	}
	io := st.mut(im.obj)
	for _, n := range rr.c.names {
		if rr.c.isIdx(n) {
			io.ents = append(io.ents, ment{n, idxOf(n), true})
		}
	}
	if !rr.c.empty {
		io.rest = []mrest{{k: clsO, v: idxOf(clsO), n: rr.fresh(), present: true}}
	}
	addAlias := func(a V, w []seg) {
		st.assumeNonEmpty(w)
		n := Lin{}
		for _, g := range w {
			n = n.add(g.n)
		}
		id := st.alloc(&obj{kind: 'a', w: w})
		o := st.mut(am.obj)
		o.ents = append(o.ents, ment{a, vSlice{obj: id, hi: n, full: true}, true})
		st.keep("word "+nm(a), w)
	}
	gap := func() []seg {
		if rr.c.empty {
			return nil
		}
		return []seg{{clsO, rr.fresh()}}
	}
	if rr.c.alias != nil {
		w := gap()
		for _, t := range rr.c.tgts {
			w = append(w, seg{t, lc(1)})
			w = append(w, gap()...)
		}
		addAlias(rr.c.alias, w)
	}
	for _, o := range rr.c.other {
		addAlias(o, []seg{{clsO, rr.fresh().addc(1)}})
	}
	if rr.c.also != nil {
		w := gap()
		for _, n := range rr.c.names {
			if rr.c.isIdx(n) {
				w = append(w, seg{n, lc(1)})
			}
		}
		addAlias(rr.c.also, append(w, gap()...))
	}
	if !rr.c.empty {
		o := st.mut(am.obj)
		o.rest = []mrest{{k: clsA, v: vTmpl{[]tseg{{v: clsO, min: 1}}}, n: rr.fresh()}}
	}
	return st
}

// assumeNonEmpty: a tracked alias has a target.
func (st *state) assumeNonEmpty(w []seg) {
	for _, g := range w {
		if n := st.n(g.n); n.C > 0 {
			return
		}
	}
	if len(w) > 0 {
		w[0].n = w[0].n.addc(1)
	}
}

// state after -------------------------------------------------------------------

type tabEntry struct {
	v       V
	present bool
}

func (rr *repoRun) table(st *state, which func(types.Type) bool) (*obj, bool) {
	at := rr.x.findField(st, st.ghost["repo"], rr.recvT, which, 0)
	if len(at) != 1 {
		return nil, false
	}
	v := st.at(at[0])
	if isNil(v) {
		return &obj{kind: 'm'}, true
	}
	m, ok := v.(vMap)
	if !ok {
		return nil, false
	}
	return st.heap[m.obj], true
}

func (st *state) lookup(o *obj, k V) (tabEntry, bool) {
	for _, e := range o.ents {
		if nm(e.k) == nm(k) {
			return tabEntry{e.v, e.ok}, true
		}
	}
	for _, r := range o.rest {
		for _, c := range choices(r.k) {
			if nm(c) == nm(k) {
				return tabEntry{}, false
			}
			if _, ok := c.(vTop); ok {
				return tabEntry{}, false
			}
		}
	}
	return tabEntry{}, true
}

// expectation about the state after an operation
type after struct {
	idx   map[string]V       // nil value: absent
	alias map[string][][]seg // alternatives; an empty word means absent
	ret   V
}

// keep remembers a word of the initial state.
func (st *state) keep(name string, w []seg) {
	n := Lin{}
	for _, g := range w {
		n = n.add(g.n)
	}
	id := st.alloc(&obj{kind: 'a', w: append([]seg{}, w...)})
	st.ghost[name] = vSlice{obj: id, hi: n}
}

// kept is that word in the terms of the present state.
func (st *state) kept(name string) []seg {
	v, ok := st.ghost[name].(vSlice)
	if !ok {
		return nil
	}
	return append([]seg{}, st.heap[v.obj].w...)
}

func (rr *repoRun) word(st *state, n V) []seg { return st.kept("word " + nm(n)) }

func (rr *repoRun) same(st *state) after {
	a := after{idx: map[string]V{}, alias: map[string][][]seg{}}
	for _, n := range rr.c.names {
		if rr.c.isIdx(n) {
			a.idx[nm(n)] = idxOf(n)
		} else {
			a.idx[nm(n)] = nil
		}
		a.alias[nm(n)] = [][]seg{rr.word(st, n)}
	}
	return a
}

// compare checks the tables against the expectation.
func (rr *repoRun) compare(r res, a after) {
	st := r.st
	io, ok1 := rr.table(st, rr.indices)
	ao, ok2 := rr.table(st, rr.aliases)
	if !ok1 || !ok2 {
		undec("the tables after the operation are not maps")
	}
	for _, n := range rr.c.names {
		e, ok := st.lookup(io, n)
		if !ok {
			undec("membership of %s in the index table is unknown", nm(n))
		}
		want := a.idx[nm(n)]
		switch {
		case want == nil && e.present:
			rr.fail(st, "the index table still or wrongly contains %s (%s)", nm(n), rr.c.label)
		case want != nil && !e.present:
			rr.fail(st, "the index table lost %s (%s)", nm(n), rr.c.label)
		case want != nil && nm(st.nv(e.v)) != nm(want):
			rr.mismatch(st, st.nv(e.v), "the index table maps %s to %s instead of %s (%s)", nm(n), nm(st.nv(e.v)), nm(want), rr.c.label)
		}
		rr.compareAlias(st, ao, n, a.alias[nm(n)])
	}
	if !rr.c.empty {
		found := false
		for _, g := range io.rest {
			if nm(g.k) == nm(clsO) && g.present {
				found = true
			}
		}
		_ = found
	}
	if a.ret != nil && nm(r.v) != nm(a.ret) {
		rr.mismatch(st, r.v, "reports %s instead of %s (%s)", show(r.v), show(a.ret), rr.c.label)
	}
}

func (rr *repoRun) compareAlias(st *state, ao *obj, n V, alts [][]seg) {
	e, ok := st.lookup(ao, n)
	if !ok {
		undec("membership of %s in the alias table is unknown", nm(n))
	}
	var got []seg
	if e.present {
		got, ok = st.content(e.v)
		if !ok {
			undec("the targets of alias %s are not tracked", nm(n))
		}
	}
	for _, w := range alts {
		if e.present == (len(st.normWord(w)) > 0) && st.sameWord(got, w) {
			if e.present && st.wlen(got).C == 0 {
				rr.fail(st, "alias %s may be left without targets (%s)", nm(n), rr.c.label)
			}
			return
		}
	}
	want := "no alias"
	if len(alts) > 0 && len(st.normWord(alts[0])) > 0 {
		want = st.wordString(st.normWord(alts[0]))
	}
	have := "no alias"
	if e.present {
		have = st.wordString(got)
	}
	rr.mismatchW(st, got, "alias %s has targets %s instead of %s (%s)", nm(n), have, want, rr.c.label)
}

func show(v V) string {
	if v == nil {
		return "nothing"
	}
	return vkey(v)
}

// cases ---------------------------------------------------------------------------

// repoCases enumerates scenarios for the argument names; e is a further index
// and x a further name.
func repoCases(args []V) []*repoCase {
	e, xn := sym("e"), sym("x")
	names := append([]V{}, args...)
	names = append(names, e, xn)
	var out []*repoCase
	for mask := 0; mask < 1<<len(args); mask++ {
		idx := map[string]bool{nm(e): true}
		var is []V
		for i, a := range args {
			if mask>>i&1 == 1 {
				idx[nm(a)] = true
				is = append(is, a)
			}
		}
		is = append(is, e)
		var words [][]V
		var rec func(cur []V)
		rec = func(cur []V) {
			words = append(words, append([]V{}, cur...))
			for _, v := range is {
				used := false
				for _, c := range cur {
					used = used || nm(c) == nm(v)
				}
				if !used {
					rec(append(append([]V{}, cur...), v))
				}
			}
		}
		rec(nil)
		keys := append(append([]V{}, args...), xn)
		for _, oth := range []string{"none", "args", "e", "y"} {
			if oth == "e" && len(args) > 1 {
				continue
			}
			others := func(alias V) []V {
				var r []V
				from := args
				switch oth {
				case "none", "y":
					return nil
				case "e":
					from = []V{e}
				}
				for _, a := range from {
					if alias == nil || nm(a) != nm(alias) {
						r = append(r, a)
					}
				}
				return r
			}
			ns, also := names, V(nil)
			if oth == "y" {
				also = sym("y")
				ns = append(append([]V{}, names...), also)
			}
			for _, al := range keys {
				for _, w := range words {
					out = append(out, &repoCase{names: ns, idx: idx, alias: al, tgts: w, other: others(al), also: also})
				}
			}
			out = append(out, &repoCase{names: ns, idx: idx, other: others(nil), also: also})
		}
	}
	for _, c := range out {
		c.describe()
	}
	return out
}

func (c *repoCase) describe() {
	var is, ts, os []string
	for _, n := range c.names {
		if c.isIdx(n) {
			is = append(is, nm(n))
		}
	}
	for _, t := range c.tgts {
		ts = append(ts, nm(t))
	}
	for _, o := range c.other {
		os = append(os, nm(o))
	}
	sort.Strings(is)
	c.label = "indexes " + strings.Join(is, ",")
	if c.alias != nil {
		c.label += fmt.Sprintf("; alias %s of ..%s..", nm(c.alias), strings.Join(ts, ".."))
	}
	if c.also != nil {
		c.label += "; alias y of all"
	}
	if len(os) > 0 {
		c.label += "; also aliases " + strings.Join(os, ",")
	}
}

// repoOp runs fn for every case.
func (w *World) repoOp(r *Report, op string, args []V, f func(rr *repoRun, st *state)) {
	fn := w.mustMethod("IndexRepo", op)
	var an []string
	for _, a := range args {
		an = append(an, nm(a))
	}
	key := op + "(" + strings.Join(an, ",") + ")"
	cs := repoCases(uniq(args))
	if op == "Search" || op == "Put" {
		// an alias of two tracked indexes, neither under its own name
		e, g, a := sym("e"), sym("g"), args[0]
		for _, ts := range [][]V{{e, g}, {g, e}} {
			c := &repoCase{names: append(uniq(args), e, g, sym("x")), idx: map[string]bool{nm(e): true, nm(g): true}, alias: a, tgts: ts}
			c.describe()
			cs = append(cs, c)
		}
	}
	for _, c := range cs {
		w.scenario(r, key+" {"+c.label+"}", fn, func(s *scenario) {
			rr := &repoRun{scenario: s, c: c}
			f(rr, rr.start(w))
		})
	}
}

func uniq(vs []V) []V {
	var out []V
	seen := map[string]bool{}
	for _, v := range vs {
		if !seen[nm(v)] {
			seen[nm(v)] = true
			out = append(out, v)
		}
	}
	return out
}

func filterWord(w []seg, drop V) []seg {
	var out []seg
	for _, g := range w {
		if nm(g.v) != nm(drop) {
			out = append(out, g)
		}
	}
	return out
}

func hasTarget(w []seg, t V) bool {
	for _, g := range w {
		if nm(g.v) == nm(t) {
			return true
		}
	}
	return false
}

var (
	symP = sym("p")
	symQ = sym("q")
)

func nameArgs() []V { return []V{symP, sym(emptyName)} }

func checkC10(w *World, r *Report) {
	r.Rule = "abstract interpretation (segmented sequences, keyed tables, loop fixpoints) of Drop from every kind of reachable state: the tables afterwards equal the specified ones"
	for _, p := range nameArgs() {
		p := p
		fn := w.mustMethod("IndexRepo", "Drop")
		w.repoOp(r, "Drop", []V{p}, func(rr *repoRun, st *state) {
			for _, q := range rr.run(fn, st, rr.recv, p) {
				a := rr.same(q.st)
				a.ret = vBool(rr.c.isIdx(p))
				if rr.c.isIdx(p) {
					a.idx[nm(p)] = nil
					for k, w := range a.alias {
						a.alias[k] = [][]seg{filterWord(w[0], p)}
					}
				}
				rr.compare(q, a)
			}
		})
	}
}

func checkC11(w *World, r *Report) {
	r.Rule = "abstract interpretation of Rename from every kind of reachable state: the tables afterwards equal the specified ones"
	fn := w.mustMethod("IndexRepo", "Rename")
	for _, args := range [][]V{{symP, symQ}, {symP, symP}} {
		p, q := args[0], args[1]
		w.repoOp(r, "Rename", args, func(rr *repoRun, st *state) {
			for _, o := range rr.run(fn, st, rr.recv, p, q) {
				a := rr.same(o.st)
				a.ret = vBool(rr.c.isIdx(p))
				if rr.c.isIdx(p) && nm(p) != nm(q) {
					a.idx[nm(p)] = nil
					a.idx[nm(q)] = idxOf(p)
					for k, w := range a.alias {
						w := w[0]
						ren := func(w []seg) []seg {
							var out []seg
							for _, g := range w {
								if nm(g.v) == nm(p) {
									g.v = q
								}
								out = append(out, g)
							}
							return out
						}
						if hasTarget(w, p) && hasTarget(w, q) {
							a.alias[k] = [][]seg{filterWord(w, p), ren(filterWord(w, q))}
						} else {
							a.alias[k] = [][]seg{ren(w)}
						}
					}
				}
				rr.compare(o, a)
			}
		})
	}
}

func checkC12(w *World, r *Report) {
	r.Rule = "abstract interpretation of Alias and UnAlias from every kind of reachable state: the tables afterwards equal the specified ones"
	al, un := w.mustMethod("IndexRepo", "Alias"), w.mustMethod("IndexRepo", "UnAlias")
	for _, args := range [][]V{{symP, symQ}, {symP, symP}} {
		p, q := args[0], args[1]
		w.repoOp(r, "Alias", args, func(rr *repoRun, st *state) {
			for _, o := range rr.run(al, st, rr.recv, p, q) {
				a := rr.same(o.st)
				cur := rr.word(o.st, p)
				ok := rr.c.isIdx(q) && !hasTarget(cur, q)
				a.ret = vBool(ok)
				if ok {
					a.alias[nm(p)] = [][]seg{append(append([]seg{}, cur...), seg{q, lc(1)})}
				}
				rr.compare(o, a)
			}
		})
		w.repoOp(r, "UnAlias", args, func(rr *repoRun, st *state) {
			for _, o := range rr.run(un, st, rr.recv, p, q) {
				a := rr.same(o.st)
				ok := rr.c.isIdx(q) && rr.c.isAlias(p)
				a.ret = vBool(ok)
				if ok {
					a.alias[nm(p)] = [][]seg{filterWord(rr.word(o.st, p), q)}
				}
				rr.compare(o, a)
			}
		})
	}
	w.repoOp(r, "UnAlias", []V{symP, sym(emptyName)}, func(rr *repoRun, st *state) {
		for _, o := range rr.run(un, st, rr.recv, symP, sym(emptyName)) {
			a := rr.same(o.st)
			a.ret = vBool(rr.c.isAlias(symP))
			a.alias[nm(symP)] = [][]seg{nil}
			rr.compare(o, a)
		}
	})
}

func checkC13(w *World, r *Report) {
	r.Rule = "abstract interpretation of the listings and existence tests: the answer equals the content of the tables"
	for _, p := range nameArgs() {
		p := p
		has, hasA := w.mustMethod("IndexRepo", "Has"), w.mustMethod("IndexRepo", "HasAlias")
		w.repoOp(r, "Has", []V{p}, func(rr *repoRun, st *state) {
			for _, o := range rr.run(has, st, rr.recv, p) {
				if nm(o.v) != nm(vBool(rr.c.isIdx(p))) {
					rr.mismatch(o.st, o.v, "answers %s (%s)", show(o.v), rr.c.label)
				}
			}
		})
		w.repoOp(r, "HasAlias", []V{p}, func(rr *repoRun, st *state) {
			for _, o := range rr.run(hasA, st, rr.recv, p) {
				if nm(o.v) != nm(vBool(rr.c.isAlias(p))) {
					rr.mismatch(o.st, o.v, "answers %s (%s)", show(o.v), rr.c.label)
				}
			}
		})
	}
	list, lista := w.mustMethod("IndexRepo", "List"), w.mustMethod("IndexRepo", "ListAliases")
	for _, p := range nameArgs() {
		w.repoOp(r, "List", []V{p}, func(rr *repoRun, st *state) {
			for _, o := range rr.run(list, st, rr.recv) {
				got, ok := o.st.content(o.v)
				if !ok {
					undec("the listing is not tracked")
				}
				rr.multiset(o.st, got, rr.c.names, rr.c.isIdx, clsO, rr.others(o.st, rr.indices), "the listing")
			}
		})
		w.repoOp(r, "ListAliases", []V{p}, func(rr *repoRun, st *state) {
			for _, o := range rr.run(lista, st, rr.recv) {
				rows := o.v
				if sv, ok := rows.(vStruct); ok && len(sv.f) == 1 {
					rows = sv.f[0]
				}
				got, ok := o.st.content(rows)
				if !ok {
					undec("the alias listing is not tracked")
				}
				var keys []seg
				for _, g := range got {
					k := getField(g.v, 0)
					keys = append(keys, seg{k, g.n})
					for _, n := range rr.c.names {
						if nm(k) == nm(n) && rr.c.isAlias(n) {
							tw, ok := o.st.content(getField(g.v, 1))
							if !ok {
								undec("the targets in the alias listing are not tracked")
							}
							if !o.st.sameWord(tw, rr.word(o.st, n)) {
								rr.mismatchW(o.st, tw, "lists targets %s of alias %s instead of %s (%s)", o.st.wordString(tw), nm(n), o.st.wordString(o.st.normWord(rr.word(o.st, n))), rr.c.label)
							}
						}
					}
				}
				rr.multiset(o.st, keys, rr.c.names, rr.c.isAlias, clsA, rr.others(o.st, rr.aliases), "the alias listing")
			}
		})
	}
}

func (rr *repoRun) others(st *state, t func(types.Type) bool) (n Lin) {
	if o, ok := rr.table(st, t); ok {
		for _, g := range o.rest {
			n = n.add(g.n)
		}
	}
	return
}

// multiset: every name exactly once if in, and nothing else than cls.
func (rr *repoRun) multiset(st *state, got []seg, names []V, in func(V) bool, cls V, total Lin, what string) {
	count := map[string]Lin{}
	var rest Lin
	for _, g := range got {
		for _, c := range choices(g.v) {
			known := nm(c) == nm(cls)
			if known {
				rest = rest.add(g.n)
			}
			for _, n := range names {
				if nm(c) == nm(n) {
					known = true
					count[nm(c)] = count[nm(c)].add(g.n)
				}
			}
			if !known {
				rr.mismatch(st, c, "%s contains %s (%s)", what, nm(c), rr.c.label)
				return
			}
		}
	}
	for _, n := range names {
		want := 0
		if in(n) {
			want = 1
		}
		if !st.eqLin(count[nm(n)], lc(want)) {
			rr.fail(st, "%s contains %s %s times instead of %d (%s)", what, nm(n), st.n(count[nm(n)]), want, rr.c.label)
		}
	}
	if !st.eqLin(rest, total) {
		rr.fail(st, "%s contains %s other names instead of %s (%s)", what, st.n(rest), st.n(total), rr.c.label)
	}
}

// resolved are the tracked indexes a name stands for, in order, and how many
// untracked ones.
func (rr *repoRun) resolved(st *state, p V) (tgts []V, other Lin, ok bool) {
	if rr.c.isIdx(p) {
		return []V{p}, Lin{}, true
	}
	if !rr.c.isAlias(p) {
		return nil, Lin{}, false
	}
	for _, g := range rr.word(st, p) {
		if nm(g.v) == nm(clsO) {
			other = other.add(g.n)
		} else {
			tgts = append(tgts, g.v)
		}
	}
	return tgts, other, true
}

func (rr *repoRun) evCount(st *state, op string, recv V) Lin {
	var n Lin
	for _, g := range st.events() {
		for _, c := range choices(g.v) {
			t, ok := c.(vTerm)
			if ok && t.op == op && len(t.args) > 0 && nm(t.args[0]) == nm(recv) {
				n = n.add(g.n)
			}
		}
	}
	return st.n(n)
}

func checkC08(w *World, r *Report) {
	r.Rule = "abstract interpretation of Put from every kind of reachable state: the puts that reach indexes, and the tables afterwards, equal the specified ones"
	fn := w.mustMethod("IndexRepo", "Put")
	for _, p := range nameArgs() {
		p := p
		w.repoOp(r, "Put", []V{p}, func(rr *repoRun, st *state) {
			for _, o := range rr.run(fn, st, rr.recv, p, symDoc) {
				a := rr.same(o.st)
				tg, _, ok := rr.resolved(o.st, p)
				want := map[string]bool{}
				for _, t := range tg {
					want[nm(t)] = true
				}
				if !ok {
					a.idx[nm(p)] = app("newindex", p)
				}
				rr.compare(o, a)
				check := func(recv V, n int) {
					if c := rr.evCount(o.st, evPut, recv); !o.st.eqLin(c, lc(n)) {
						rr.fail(o.st, "puts the document %s times into %s instead of %d (%s)", c, nm(recv), n, rr.c.label)
					}
				}
				for _, n := range rr.c.names {
					k := 0
					if want[nm(n)] {
						k = 1
					}
					check(idxOf(n), k)
					b := 0
					if !ok && nm(n) == nm(p) {
						b = 1
					}
					check(app("newindex", n), b)
					if c := rr.evCount(o.st, evBuild, n); !o.st.eqLin(c, lc(b)) {
						rr.fail(o.st, "builds index %s %s times instead of %d (%s)", nm(n), c, b, rr.c.label)
					}
				}
				for _, g := range o.st.events() {
					for _, c := range choices(g.v) {
						if t, ok := c.(vTerm); ok && t.op == evPut && len(t.args) == 2 && nm(t.args[1]) != nm(symDoc) {
							rr.fail(o.st, "puts %s instead of the given document (%s)", nm(t.args[1]), rr.c.label)
						}
					}
				}
			}
		})
	}
}

func isHit(v V) bool {
	t, ok := v.(vTerm)
	return ok && (t.op == "hit1" || t.op == "hit2")
}

func checkC09(w *World, r *Report) {
	r.Rule = "abstract interpretation of Search from every kind of reachable state: the result stream equals the concatenation of the results of the resolved indexes"
	fn := w.mustMethod("IndexRepo", "Search")
	drain := w.SSA.Func("vgDrain")
	for _, p := range nameArgs() {
		p := p
		for _, rets := range []string{"", "nil"} {
			rets := rets
			w.repoOp(r, "Search", []V{p}, func(rr *repoRun, st *state) {
				rr.rets = rets
				for _, o := range rr.run(fn, st, rr.recv, p, symT, symEng) {
					tg, _, ok := rr.resolved(o.st, p)
					t, isT := o.v.(vTuple)
					if !isT || len(t) != 2 {
						undec("Search does not return a pair")
					}
					rr.compare(res{st: o.st}, rr.same(o.st))
					if !ok {
						if isNil(t[1]) {
							rr.fail(o.st, "no error for a name that is neither index nor alias (%s)", rr.c.label)
						}
						if !isNil(t[0]) {
							rr.fail(o.st, "a result stream for a name that is neither index nor alias (%s)", rr.c.label)
						}
						continue
					}
					if !isNil(t[1]) {
						rr.fail(o.st, "an error for a name that exists (%s)", rr.c.label)
						continue
					}
					if isNil(t[0]) {
						rr.fail(o.st, "no result stream for a name that exists (%s)", rr.c.label)
						continue
					}
					for _, g := range o.st.events() {
						for _, c := range choices(g.v) {
							if t, ok := c.(vTerm); ok && t.op == "wrong search" {
								rr.fail(o.st, "passes other terms or another engine on (%s)", rr.c.label)
							}
						}
					}
					for _, n := range rr.c.names {
						if !rr.c.isIdx(n) {
							continue
						}
						want := 0
						for _, t := range tg {
							if nm(t) == nm(n) {
								want = 1
							}
						}
						if c := rr.evCount(o.st, evSrch, idxOf(n)); want == 0 && !o.st.eqLin(c, lc(0)) {
							rr.fail(o.st, "searches %s, which %s does not stand for (%s)", nm(n), nm(p), rr.c.label)
						}
					}
					if arrived(o.st, t[0], map[int]bool{}) {
						rr.fail(o.st, "the results are in the order in which goroutines finish (%s)", rr.c.label)
					}
					for _, d := range rr.run(drain, o.st, t[0]) {
						got, ok := d.st.content(d.v)
						if !ok {
							undec("the results read from the stream are not tracked")
						}
						seq, stray := d.st.focusSeq(got, isHit, func(v V) bool { return nm(v) == nm(clsN) })
						if stray != nil {
							rr.mismatch(d.st, stray, "the results contain %s (%s)", nm(stray), rr.c.label)
							continue
						}
						var want []seg
						if rets == "" {
							for _, t := range tg {
								want = append(want, seg{app("hit1", idxOf(t)), lc(1)}, seg{app("hit2", idxOf(t)), lc(1)})
							}
						}
						if !d.st.sameWord(seq, want) {
							rr.mismatchW(d.st, got, "the results are %s instead of %s (%s)", d.st.wordString(seq), d.st.wordString(want), rr.c.label)
						}
					}
				}
			})
		}
	}
}

// arrived: an array filled in goroutine order is reachable from v.
func arrived(st *state, v V, seen map[int]bool) bool {
	found := false
	visit := func(id int) {
		if seen[id] {
			return
		}
		seen[id] = true
		o := st.heap[id]
		if o == nil {
			return
		}
		if o.tag == "arrival" {
			found = true
		}
		if o.v != nil && arrived(st, o.v, seen) {
			found = true
		}
		for _, g := range o.w {
			if arrived(st, g.v, seen) {
				found = true
			}
		}
	}
	scanV(v, func(y V) {
		switch y := y.(type) {
		case vSlice:
			visit(y.obj)
		case vPtr:
			visit(y.obj)
		}
	})
	return found
}

func checkC07(w *World, r *Report) {
	r.Rule = "abstract interpretation of every operation from every kind of state that satisfies the invariant: the invariant holds afterwards"
	type opcase struct {
		op   string
		args []V
		rest []V
	}
	p, q := symP, symQ
	ops := []opcase{
		{"Alias", []V{p, q}, nil}, {"Alias", []V{p, p}, nil},
		{"UnAlias", []V{p, q}, nil}, {"UnAlias", []V{p, p}, nil}, {"UnAlias", []V{p, sym(emptyName)}, nil},
		{"Rename", []V{p, q}, nil}, {"Rename", []V{p, p}, nil},
		{"Drop", []V{p}, nil}, {"Put", []V{p}, []V{symDoc}}, {"Search", []V{p}, []V{symT, symEng}},
		{"Has", []V{p}, nil}, {"HasAlias", []V{p}, nil},
	}
	known := map[string]bool{"List": true, "ListAliases": true, "String": true}
	for _, o := range ops {
		known[o.op] = true
		o := o
		fn := w.mustMethod("IndexRepo", o.op)
		w.repoOp(r, o.op, o.args, func(rr *repoRun, st *state) {
			args := append([]V{rr.recv}, o.args...)
			for _, f := range rr.runQuiet(fn, st, append(args, o.rest...)...) {
				rr.n++
				rr.invariant(f.st)
			}
		})
	}
	for _, m := range w.exportedMethods(w.mustType("IndexRepo")) {
		if !known[m.Name()] {
			r.unknown("operation "+m.Name(), w.where(m), "an operation without a contract")
		}
	}
}

// invariant: every tracked alias has targets, all existing, each once.
func (rr *repoRun) invariant(st *state) {
	io, ok1 := rr.table(st, rr.indices)
	ao, ok2 := rr.table(st, rr.aliases)
	if !ok1 || !ok2 {
		undec("the tables after the operation are not maps")
	}
	for _, n := range rr.c.names {
		e, ok := st.lookup(ao, n)
		if !ok {
			undec("membership of %s in the alias table is unknown", nm(n))
		}
		if !e.present {
			continue
		}
		w, ok := st.content(e.v)
		if !ok {
			undec("the targets of alias %s are not tracked", nm(n))
		}
		if st.wlen(w).C == 0 {
			rr.fail(st, "alias %s may be left without targets (%s)", nm(n), rr.c.label)
		}
		count := map[string]Lin{}
		for _, g := range w {
			for _, c := range choices(g.v) {
				if nm(c) == nm(clsO) {
					continue
				}
				count[nm(c)] = st.n(count[nm(c)].add(g.n))
				ie, ok := st.lookup(io, c)
				if !ok {
					undec("membership of %s in the index table is unknown", nm(c))
				}
				if !ie.present {
					rr.fail(st, "alias %s points to %s, which is no index (%s)", nm(n), nm(c), rr.c.label)
				}
			}
		}
		for k, l := range count {
			if !l.isConst() || l.C > 1 {
				rr.fail(st, "alias %s lists %s %s times (%s)", nm(n), k, l, rr.c.label)
			}
		}
	}
}

// checkC05 adds to the join rule that the wait groups count exactly what is
// started, for any number of targets.
func checkC05(w *World, r *Report) {
	checkLocks(w, r)
	r.Rule += "; abstract interpretation of Put and Search: wait groups count exactly the goroutines started, for every number of targets"
	p := symP
	for _, o := range []struct {
		op   string
		rest []V
	}{{"Put", []V{symDoc}}, {"Search", []V{symT, symEng}}} {
		o := o
		fn := w.mustMethod("IndexRepo", o.op)
		w.repoOp(r, o.op, []V{p}, func(rr *repoRun, st *state) {
			for _, f := range rr.x.exec(fn, append([]V{rr.recv, p}, o.rest...), nil, st) {
				rr.n++
				if strings.Contains(f.pan, "WaitGroup") || strings.Contains(f.pan, "waits forever") {
					rr.fail(f.st, "%s at %s (%s)", f.pan, f.at, rr.c.label)
				}
			}
		})
	}
}
