package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Contracts of the in-memory index (C17, C23, C24, C31).
//
// The index holds any number of documents; a tracked document d among them and
// a tracked token tau, whose posting list holds positions below the number of
// documents. Everything else is arbitrary.

var (
	symTkr  = sym("tokenizer")
	symTau  = sym("tau")
	clsTok  = class("token") // other tokens
	symName = sym("docname")
	symCont = sym("content")
	symStmt = sym("statement")
	docF    = vStruct{[]V{sym("idF"), sym("contentF")}}
	docOld  = vStruct{[]V{class("id"), class("rawtext")}}
)

type indexRun struct {
	*scenario
	w      *World
	recv   vPtr
	tau    V
	tokens func() []seg // what the tokenizer returns; nil: a nil slice
	panics bool
	posted bool // tau has postings already
}

func (ir *indexRun) hook(x *interp, st *state, c *callInfo) ([]res, bool) {
	if c.kind == "invoke" && c.name == "Tokenize" && len(c.args) == 1 {
		st.event(app("tokenize", c.recv, c.args[0]))
		if ir.panics {
			return []res{{st: st, pan: "analyzer panic"}}, true
		}
		w := ir.tokens()
		if w == nil {
			return one(st, vNil{}), true
		}
		v := st.array(w...)
		st.keep("tokens", w)
		return one(st, v), true
	}
	if c.kind == "value" && nm(c.recv) == nm(symEng) && len(c.args) == 2 {
		st.event(app("engine"))
		st.ghost["engine tokens"] = c.args[0]
		st.ghost["engine index"] = c.args[1]
		v := st.array(seg{clsN, ir.fresh()}, seg{app("hit1", symEng), lc(1)}, seg{clsN, ir.fresh()})
		st.ghost["engine result"] = v
		return one(st, v), true
	}
	return nil, false
}

func isDocs(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n, ok := types.Unalias(s.Elem()).(*types.Named)
	return ok && n.Obj().Name() == "Doc"
}

func isPostings(t types.Type) bool {
	return isMapType(t, func(e types.Type) bool {
		s, ok := e.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Int
	})
}

// start builds an index with documents.
func (ir *indexRun) start() *state {
	ir.x.hook = ir.hook
	st := newState()
	rs := ir.runQuiet(ir.w.mustFunc("NewMemoryIndex"), st, sym("name"), symTkr)
	if len(rs) != 1 {
		undec("NewMemoryIndex has %d outcomes", len(rs))
	}
	st = rs[0].st
	recv, ok := rs[0].v.(vPtr)
	if !ok {
		undec("NewMemoryIndex does not return a pointer")
	}
	ir.recv = recv
	t := ir.w.mustType("MemoryIndex")
	ds := ir.x.findField(st, recv, t, isDocs, 0)
	ps := ir.x.findField(st, recv, t, isPostings, 0)
	other := ir.x.findField(st, recv, t, func(t types.Type) bool {
		if isDocs(t) || isPostings(t) {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return u.Info()&types.IsString == 0
		case *types.Slice, *types.Map, *types.Chan:
			return true
		}
		return false
	}, 0)
	if len(ds) != 1 || len(ps) != 1 || len(other) != 0 {
		undec("the index keeps its documents and postings in a way that is not understood")
	}
	st.ghost["index"] = recv
	d, after := ir.fresh(), ir.fresh()
	n := d.add(after).addc(1)
	dw := []seg{{docOld, d}, {docF, lc(1)}, {docOld, after}}
	st.ghost["d"] = vInt{d}
	st.ghost["n"] = vInt{n}
	st.setAt(ds[0], st.array(dw...))
	m, ok := st.at(ps[0]).(vMap)
	if !ok {
		undec("the postings of a new index are not a map")
	}
	st.ghost["zero"] = vInt{}
	old := vRange{neg: true, glo: &gbound{"zero", 0}, ghi: &gbound{"n", -1}}
	o := st.mut(m.obj)
	o.rest = []mrest{{k: clsTok, v: vTmpl{[]tseg{{v: old, min: 1}}}, n: ir.fresh()}}
	if ir.posted {
		pw := []seg{{old, ir.fresh().addc(1)}}
		v := st.array(pw...)
		o = st.mut(m.obj)
		o.ents = append(o.ents, ment{ir.tau, v, true})
		st.keep("posting", pw)
	} else {
		st.keep("posting", nil)
	}
	return st
}

func (st *state) setAt(p vPtr, v V) {
	o := st.mut(p.obj)
	o.v = updFields(o.v, p.path, v)
}

func (ir *indexRun) method(name string) *ssa.Function {
	return ir.w.mustMethod("MemoryIndex", name)
}

// observe checks documents and the postings of the tracked token.
func (ir *indexRun) observe(st *state, docs Lin, posting func(*state) []seg, what string) {
	for _, o := range ir.run(ir.method("Len"), st.clone(), st.ghost["index"]) {
		if v, ok := o.v.(vInt); !ok || !o.st.eqLin(v.l, docs) {
			ir.mismatch(o.st, o.v, "%s: the index reports %s documents instead of %s", what, show(o.v), o.st.n(docs))
		}
	}
	d := st.ghost["d"].(vInt)
	for _, o := range ir.run(ir.method("Document"), st.clone(), st.ghost["index"], d) {
		if nm(o.v) != nm(docF) {
			ir.mismatch(o.st, o.v, "%s: an earlier document became %s", what, show(o.v))
		}
	}
	for _, o := range ir.run(ir.method("Indexed"), st.clone(), st.ghost["index"], ir.tau) {
		got, ok := o.st.content(o.v)
		if !ok {
			ir.doubt("%s: the posting list is not tracked", what)
			continue
		}
		want := o.st.normWord(posting(o.st))
		if !o.st.sameWord(got, want) {
			if hasOpaque(got, o.st) {
				ir.doubt("%s: the posting list is not tracked", what)
				continue
			}
			ir.fail(o.st, "%s: the posting list of the token is %s instead of %s", what, o.st.wordString(got), o.st.wordString(want))
		}
	}
}

// hasOpaque: content without any known bound.
func hasOpaque(w []seg, st *state) bool {
	for _, g := range w {
		for _, c := range choices(g.v) {
			switch v := c.(type) {
			case vTop:
				return true
			case vRange:
				if !v.bounded() {
					return true
				}
			}
		}
	}
	return false
}

type tokenCase struct {
	label string
	has   bool
	word  func(s *scenario, tau V) []seg
}

func tokenCases() []tokenCase {
	gap := func(s *scenario) seg { return seg{clsTok, s.fresh()} }
	return []tokenCase{
		{"no tokens (nil)", false, func(*scenario, V) []seg { return nil }},
		{"no tokens", false, func(*scenario, V) []seg { return []seg{} }},
		{"other tokens", false, func(s *scenario, _ V) []seg { return []seg{{clsTok, s.fresh().addc(1)}} }},
		{"the token once", true, func(s *scenario, t V) []seg { return []seg{gap(s), {t, lc(1)}, gap(s)} }},
		{"the token twice", true, func(s *scenario, t V) []seg { return []seg{gap(s), {t, lc(1)}, gap(s), {t, lc(1)}, gap(s)} }},
		{"the token many times", true, func(s *scenario, t V) []seg { return []seg{gap(s), {t, s.fresh().addc(1)}, gap(s)} }},
	}
}

// request builds a put request with the public constructor.
func (ir *indexRun) request(st *state) (*state, V) {
	rs := ir.runQuiet(ir.w.mustFunc("NewDocRequestWith"), st, symName, symCont, symStmt)
	if len(rs) != 1 {
		undec("NewDocRequestWith has %d outcomes", len(rs))
	}
	return rs[0].st, rs[0].v
}

func (w *World) indexCases(r *Report, op string, f func(ir *indexRun, tc tokenCase)) {
	fn := w.mustMethod("MemoryIndex", op)
	for _, tau := range []V{symTau, sym(emptyName)} {
		for _, posted := range []bool{false, true} {
			for _, tc := range tokenCases() {
				key := op + " {" + tc.label
				if nm(tau) != nm(symTau) {
					key += ", empty token"
				}
				if posted {
					key += ", indexed before"
				}
				w.scenario(r, key+"}", fn, func(s *scenario) {
					ir := &indexRun{scenario: s, w: w, tau: tau, posted: posted}
					ir.tokens = func() []seg { return tc.word(s, tau) }
					f(ir, tc)
				})
			}
		}
	}
}

func checkC17(w *World, r *Report) {
	r.Rule = "abstract interpretation of the index's Put from any number of documents and postings: what Len, Document and Indexed report afterwards"
	put := w.mustMethod("MemoryIndex", "Put")
	w.indexCases(r, "Put", func(ir *indexRun, tc tokenCase) {
		st, req := ir.request(ir.start())
		for _, o := range ir.run(put, st, st.ghost["index"], req) {
			st := o.st
			n := st.ghost["n"].(vInt).l
			ir.observe(st, n.addc(1), func(s *state) []seg {
				w := s.kept("posting")
				if tc.has {
					w = append(append([]seg{}, w...), seg{s.ghost["n"], lc(1)})
				}
				return w
			}, "after the put")
			for _, d := range ir.run(ir.method("Document"), st.clone(), st.ghost["index"], vInt{n}) {
				want := vStruct{[]V{symName, symCont}}
				if nm(d.v) != nm(want) {
					ir.mismatch(d.st, d.v, "the stored document is %s instead of %s", show(d.v), nm(want))
				}
			}
		}
	})
}

func checkC31(w *World, r *Report) {
	r.Rule = "abstract interpretation of the index's Put with a panic out of the analyzer: documents and postings afterwards are those before"
	put := w.mustMethod("MemoryIndex", "Put")
	w.indexCases(r, "Put", func(ir *indexRun, tc tokenCase) {
		st, req := ir.request(ir.start())
		ir.panics = true
		for _, o := range ir.x.exec(put, []V{st.ghost["index"], req}, nil, st) {
			ir.n++
			ir.panics = false
			ir.observe(o.st, o.st.ghost["n"].(vInt).l, func(s *state) []seg { return s.kept("posting") }, "after the panic")
			ir.panics = true
		}
	})
}

func checkC23(w *World, r *Report) {
	r.Rule = "abstract interpretation of the index's Put and Search: which component is handed which text, and where its tokens go"
	put, search := w.mustMethod("MemoryIndex", "Put"), w.mustMethod("MemoryIndex", "Search")
	once := func(ir *indexRun, st *state, text V) {
		n := Lin{}
		for _, g := range st.events() {
			for _, c := range choices(g.v) {
				t, ok := c.(vTerm)
				if !ok || t.op != "tokenize" {
					continue
				}
				n = n.add(g.n)
				if nm(t.args[0]) != nm(symTkr) {
					ir.mismatch(st, t.args[0], "analyzes with %s instead of the index's analyzer", nm(t.args[0]))
				}
				if nm(t.args[1]) != nm(text) {
					ir.mismatch(st, t.args[1], "analyzes %s instead of %s", nm(t.args[1]), nm(text))
				}
			}
		}
		if !st.ge0(st.n(n).addc(-1)) {
			ir.fail(st, "the text is not analyzed")
		}
	}
	for _, text := range []V{symStmt, sym(emptyName)} {
		text := text
		suffix := ""
		if nm(text) != nm(symStmt) {
			suffix = ", empty text"
		}
		for _, tc := range tokenCases() {
			tc := tc
			w.scenario(r, "Put {"+tc.label+suffix+"}", put, func(s *scenario) {
				ir := &indexRun{scenario: s, w: w, tau: symTau, posted: true}
				ir.tokens = func() []seg { return tc.word(s, symTau) }
				st := ir.start()
				rs := ir.runQuiet(w.mustFunc("NewDocRequestWith"), st, symName, symCont, text)
				if len(rs) != 1 {
					undec("NewDocRequestWith has %d outcomes", len(rs))
				}
				for _, o := range ir.run(put, rs[0].st, rs[0].st.ghost["index"], rs[0].v) {
					once(ir, o.st, text)
					ir.observe(o.st, o.st.ghost["n"].(vInt).l.addc(1), func(s *state) []seg {
						w := s.kept("posting")
						if tc.has {
							w = append(append([]seg{}, w...), seg{s.ghost["n"], lc(1)})
						}
						return w
					}, "after the put")
				}
			})
			w.scenario(r, "Search {"+tc.label+suffix+"}", search, func(s *scenario) {
				ir := &indexRun{scenario: s, w: w, tau: symTau, posted: true}
				ir.tokens = func() []seg { return tc.word(s, symTau) }
				st := ir.start()
				for _, o := range ir.run(search, st, st.ghost["index"], text, symEng) {
					st := o.st
					once(ir, st, text)
					n := Lin{}
					for _, g := range st.events() {
						for _, c := range choices(g.v) {
							if t, ok := c.(vTerm); ok && t.op == "engine" {
								n = n.add(g.n)
							}
						}
					}
					if !st.eqLin(n, lc(1)) {
						ir.fail(st, "the engine is run %s times", st.n(n))
						continue
					}
					got, ok := st.content(st.ghost["engine tokens"])
					if !ok {
						ir.doubt("the tokens given to the engine are not tracked")
					} else if !st.sameWord(got, st.kept("tokens")) {
						ir.mismatchW(st, got, "the engine gets the tokens %s instead of %s", st.wordString(got), st.wordString(st.normWord(st.kept("tokens"))))
					}
					ix := st.ghost["engine index"]
					if i, ok := ix.(vIface); ok {
						ix = i.v
					}
					if nm(ix) != nm(st.ghost["index"]) {
						ir.mismatch(st, ix, "the engine gets another index")
					}
					res, ok1 := st.content(o.v)
					want, ok2 := st.content(st.ghost["engine result"])
					if !ok1 || !ok2 {
						ir.doubt("the results are not tracked")
					} else if !st.sameWord(res, want) {
						ir.mismatchW(st, res, "returns %s instead of what the engine returned", st.wordString(res))
					}
				}
			})
		}
	}
}
