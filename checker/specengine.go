package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Contracts of the search engines (C18-C22).
//
// An engine works on an arbitrary index with any number of documents; two of
// them, d before e, are tracked. A token of the class T+ is contained in both
// (and in any other documents); each tracked token has a pattern that tells
// which of the tracked documents contain it.

var (
	clsTP   = class("T+")
	symIx   = sym("indexer")
	docBlnk = vStruct{[]V{sym(emptyName), vStr("")}}
)

type engineRun struct {
	*scenario
	pair bool
	w    *World
	fn   *ssa.Function
	pat  map[string]string // patterns of tracked tokens
	d, e vStruct
	word func() []seg // query tokens; nil: a nil slice
	seen int
}

type engineCase struct {
	label string
	pair  bool
	d, e  vStruct
	pat   map[string]string
	word  func(s *scenario) []seg
	// which tracked documents contain all tokens
	all  string
	same bool // equal identifiers
}

func (c *engineCase) has(which string) bool { return strings.Contains(c.all, which) }

// engineCases: with one tracked document every kind of query; with two (pair)
// the queries that return both or one of them.
func engineCases(pair bool) []*engineCase {
	d := vStruct{[]V{sym("idD"), sym("contentD")}}
	e := vStruct{[]V{sym("idE"), sym("contentE")}}
	twin := vStruct{[]V{sym("idD"), sym("contentE")}}
	var out []*engineCase
	gap := func(s *scenario) seg { return s.tokens(s.fresh()) }
	x, y := sym("x"), sym("y")
	type q struct {
		label string
		pats  []string
		word  func(s *scenario) []seg
	}
	some := q{"common tokens", nil, func(s *scenario) []seg { return []seg{s.tokens(s.fresh().addc(1))} }}
	single := func(p string) q {
		return q{"a token in " + p, []string{p}, func(s *scenario) []seg { return []seg{gap(s), {x, lc(1)}, gap(s)} }}
	}
	var qs []q
	if pair {
		qs = []q{some, single("d"), single("e")}
	} else {
		qs = append(qs, some,
			q{"no tokens (nil)", nil, func(*scenario) []seg { return nil }},
			q{"no tokens", nil, func(*scenario) []seg { return []seg{} }})
		for _, p := range []string{"d", "other documents", "empty", "nil"} {
			qs = append(qs, single(p))
		}
		qs = append(qs, q{"the empty token", []string{"d"}, func(s *scenario) []seg { return []seg{gap(s), {sym(emptyName), lc(1)}, gap(s)} }})
		for _, p := range [][]string{{"d", "nil"}, {"nil", "d"}, {"other documents", "d"}} {
			qs = append(qs, q{"tokens in " + strings.Join(p, " and "), p, func(s *scenario) []seg {
				return []seg{gap(s), {x, lc(1)}, gap(s), {y, lc(1)}, gap(s)}
			}})
		}
		for _, p := range []string{"d", "other documents", "nil"} {
			qs = append(qs, q{"a repeated token in " + p, []string{p}, func(s *scenario) []seg {
				return []seg{gap(s), {x, lc(1)}, gap(s), {sym("x'"), lc(1)}, gap(s)}
			}})
		}
	}
	ids := []string{"", "blank document"}
	if pair {
		ids = []string{"", "one identifier", "equal documents", "blank document"}
	}
	for _, id := range ids {
		for _, k := range qs {
			c := &engineCase{label: k.label, pair: pair, d: d, e: e, pat: map[string]string{}, word: k.word, all: "d"}
			if pair {
				c.all = "de"
			}
			switch id {
			case "one identifier":
				c.e, c.same = twin, true
			case "equal documents":
				c.e, c.same = d, true
			case "blank document":
				c.d = docBlnk
			}
			if id != "" {
				c.label += ", " + id
			}
			if strings.HasPrefix(k.label, "no tokens") {
				c.all = ""
			}
			for i, p := range k.pats {
				n := []string{"x", "y"}[i]
				if k.label == "the empty token" {
					n = emptyName
				}
				c.pat[n] = p
				if c.all != "" && p != "de" {
					c.all = ""
					if p == "d" || pair && p == "e" {
						c.all = p
					}
				}
			}
			out = append(out, c)
		}
	}
	return out
}

// tokens is a segment of query tokens that both tracked documents contain.
func (s *scenario) tokens(n Lin) seg { return seg{clsTP, n} }

func (er *engineRun) start() (*state, V) {
	er.x.hook = er.hook
	st := newState()
	d := er.fresh()
	n := d.add(er.fresh()).addc(1)
	st.ghost["zero"] = vInt{}
	st.ghost["@d"] = vInt{d}
	docs := []seg{{class("Document"), d}, {sym("D"), lc(1)}, {class("Document"), n.sub(d).addc(-1)}}
	if er.pair {
		e := n
		n = e.add(er.fresh()).addc(1)
		st.ghost["@e"] = vInt{e}
		docs = append(docs, seg{sym("E"), lc(1)}, seg{class("Document"), n.sub(e).addc(-1)})
	}
	st.ghost["@n"] = vInt{n}
	st.ghost["documents"] = st.array(docs...) // keeps the positions in order
	var arg V = vNil{}
	w := er.word()
	nt := Lin{}
	if w != nil {
		if er.conc { // distinct tokens
			var cw []seg
			for _, g := range w {
				if nm(g.v) != nm(clsTP) {
					cw = append(cw, g)
					continue
				}
				for i := 0; i < g.n.C; i++ {
					cw = append(cw, seg{sym(fmt.Sprintf("T%d", len(cw))), lc(1)})
				}
			}
			w = cw
		}
		arg = st.array(w...)
		nt = st.wlen(w)
	}
	st.ghost["tokens"] = vInt{nt}
	return st, arg
}

func (er *engineRun) both() string {
	if er.pair {
		return "de"
	}
	return "d"
}

func (er *engineRun) rng(lo string, lof int, hi string, hif int) V {
	return vRange{neg: true, glo: &gbound{lo, lof}, ghi: &gbound{hi, hif}}
}

// posting builds a posting list with the pattern.
func (er *engineRun) posting(st *state, pat string) []res {
	d, n := st.ghost["@d"].(vInt), st.ghost["@n"].(vInt)
	var w []seg
	gap := func(from, to Lin, r V) {
		k := er.fresh()
		if er.conc {
			for i := from.C; i < to.C && i < from.C+k.C; i++ {
				w = append(w, seg{vInt{lc(i)}, lc(1)})
			}
			return
		}
		w = append(w, seg{r, k})
	}
	switch pat {
	case "nil":
		return one(st, vNil{})
	case "empty":
		return one(st, st.array())
	}
	gap(Lin{}, st.n(d.l), er.rng("zero", 0, "@d", -1))
	if pat == "de" || pat == "d" {
		w = append(w, seg{d, lc(1)})
	}
	last := "@d"
	if er.pair {
		e := st.ghost["@e"].(vInt)
		gap(st.n(d.l.addc(1)), st.n(e.l), er.rng("@d", 1, "@e", -1))
		if pat == "de" || pat == "e" {
			w = append(w, seg{e, lc(1)})
		}
		last = "@e"
	}
	gap(st.n(st.ghost[last].(vInt).l.addc(1)), st.n(n.l), er.rng(last, 1, "@n", -1))
	return one(st, st.array(w...))
}

func (er *engineRun) hook(x *interp, st *state, c *callInfo) ([]res, bool) {
	if c.kind != "invoke" || nm(c.recv) != nm(symIx) {
		return nil, false
	}
	switch c.name {
	case "Len":
		return one(st, st.ghost["@n"]), true
	case "Document":
		return er.document(st, c.args[0]), true
	case "Indexed":
		t, ok := unprime(c.args[0]).(vTerm)
		if !ok || len(t.args) > 0 {
			undec("a token that is not one of the query: %s", show(c.args[0]))
		}
		if nm(t) == nm(clsTP) {
			return er.posting(st, er.both()), true
		}
		p, ok := er.pat[t.op]
		if !ok {
			if !er.conc || !strings.HasPrefix(t.op, "T") {
				undec("a token that is not one of the query: %s", show(c.args[0]))
			}
			p = er.both()
		}
		if k, ok := st.ghost["posting "+t.op]; ok {
			if isNil(k) {
				return one(st, vNil{}), true
			}
			w, _ := st.content(k)
			return one(st, st.array(w...)), true
		}
		rs := er.posting(st, p)
		if isNil(rs[0].v) {
			st.ghost["posting "+t.op] = vNil{}
		} else {
			w, _ := st.content(rs[0].v)
			st.keep("posting "+t.op, w)
		}
		return rs, true
	}
	return nil, false
}

func (er *engineRun) document(st *state, i V) []res {
	var out []res
	cur := []*state{st}
	if _, ok := i.(vInt); ok {
		in, bad := er.x.bounded(st, i, st.ghost["@n"].(vInt).l)
		for _, b := range bad {
			out = append(out, res{st: b, pan: "document position out of range"})
		}
		cur = in
	}
	for _, f := range []struct {
		g string
		v V
	}{{"@d", er.d}, {"@e", er.e}} {
		if st.ghost[f.g] == nil {
			continue
		}
		var nx []*state
		for _, s := range cur {
			y, n := er.x.eq(s, i, s.ghost[f.g])
			out = append(out, each(y, f.v)...)
			nx = append(nx, n...)
		}
		cur = nx
	}
	return append(out, each(cur, docOld)...)
}

// hitOf reads a search result.
func (er *engineRun) hitOf(v V) (doc, hits V, ok bool) {
	t := er.w.mustType("SearchResult").Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		switch t.Field(i).Name() {
		case "Document":
			doc = getField(v, i)
		case "Hits":
			hits = getField(v, i)
		}
	}
	return doc, hits, doc != nil && hits != nil
}

// results runs the engine and hands out the tracked results: for each result
// of d or e a segment with "d" or "e" (or "d|e" when they are equal documents).
type hit struct {
	doc  string
	hits V
	n    Lin
}

func (er *engineRun) results(c *engineCase, f func(o res, hits []hit)) {
	st, arg := er.start()
	for _, o := range er.run(er.fn, st, arg, symIx) {
		got, ok := o.st.content(o.v)
		if !ok {
			er.doubt("the results are not tracked")
			continue
		}
		var hs []hit
		bad := false
		for _, g := range got {
			for _, ch := range choices(g.v) {
				doc, hits, ok := er.hitOf(ch)
				if !ok {
					er.doubt("a result that is not understood")
					bad = true
					continue
				}
				name := ""
				switch nm(doc) {
				case nm(er.d):
					name = "d"
				case nm(er.e):
					name = "e"
				case nm(docOld):
				default:
					bad = true
					if _, isC := doc.(vChoice); isC {
						er.doubt("results that may or may not be tracked documents")
					} else {
						er.mismatch(o.st, doc, "returns %s, which is no document of the index", show(doc))
					}
				}
				if name != "" {
					if _, multi := g.v.(vChoice); multi {
						er.doubt("results that may or may not be tracked documents")
						bad = true
					}
					hs = append(hs, hit{name, hits, g.n})
				}
			}
		}
		if !bad {
			f(o, hs)
		}
	}
}

func (w *World) engineScenarios(r *Report, engine string, pair bool, f func(er *engineRun, c *engineCase)) {
	fn := w.mustFunc(engine)
	mode := inMode("a", 2*time.Minute)
	if engine == "LinearSearch" {
		mode = inMode("c", 2*time.Minute)
		if pair {
			mode = inMode("c", 45*time.Second)
		}
	}
	for _, c := range engineCases(pair) {
		of := "one document"
		if pair {
			of = "two documents"
		}
		w.scenario(r, engine+" {"+of+": "+c.label+"}", fn, func(s *scenario) {
			er := &engineRun{scenario: s, w: w, fn: fn, pat: c.pat, d: c.d, e: c.e, pair: c.pair}
			er.word = func() []seg { return c.word(s) }
			f(er, c)
		}, mode)
	}
}

// emptyIndex: the engine finds nothing in an index without documents.
func (w *World) emptyIndex(r *Report, engine string) {
	fn := w.mustFunc(engine)
	for _, nilSlice := range []bool{false, true} {
		for _, q := range []string{"no tokens (nil)", "no tokens", "tokens"} {
			w.scenario(r, fmt.Sprintf("%s {empty index, nil postings %v: %s}", engine, nilSlice, q), fn, func(s *scenario) {
				s.x.hook = func(x *interp, st *state, c *callInfo) ([]res, bool) {
					if c.kind != "invoke" || nm(c.recv) != nm(symIx) {
						return nil, false
					}
					switch c.name {
					case "Len":
						return one(st, vInt{}), true
					case "Document":
						return []res{{st: st, pan: "document position out of range"}}, true
					case "Indexed":
						if nilSlice {
							return one(st, vNil{}), true
						}
						return one(st, st.array()), true
					}
					return nil, false
				}
				st := newState()
				arg := V(vNil{})
				switch q {
				case "no tokens":
					arg = st.array()
				case "tokens":
					arg = st.array(s.tokens(s.fresh().addc(1)))
				}
				for _, o := range s.run(fn, st, arg, symIx) {
					got, ok := o.st.content(o.v)
					if !ok {
						s.doubt("the results are not tracked")
					} else if len(o.st.normWord(got)) > 0 {
						s.mismatchW(o.st, got, "returns %s from an empty index", o.st.wordString(got))
					}
				}
			})
		}
	}
}

// exactly: each document that contains all tokens once, no other, with hits.
func (er *engineRun) exactly(c *engineCase, o res, hs []hit, hits V) bool {
	want := map[string]int{}
	if c.has("d") {
		want["d"]++
	}
	if c.has("e") {
		if nm(c.d) == nm(c.e) {
			want["d"]++
		} else {
			want["e"]++
		}
	}
	got := map[string]Lin{}
	ok := true
	for _, h := range hs {
		got[h.doc] = o.st.n(got[h.doc].add(h.n))
		if er.x.eqTri(o.st, h.hits, hits) != 1 {
			er.mismatch(o.st, h.hits, "a result has %s hits instead of %s", show(o.st.nv(h.hits)), show(o.st.nv(hits)))
			ok = false
		}
	}
	for _, k := range []string{"d", "e"} {
		if !o.st.eqLin(got[k], lc(want[k])) {
			er.fail(o.st, "returns the document %s %s times instead of %d (%s)", k, o.st.n(got[k]), want[k], c.label)
			ok = false
		}
	}
	return ok
}

func checkC18(w *World, r *Report) {
	r.Rule = "abstract interpretation of the linear engine over any query and any index with one or two tracked documents: which of them are returned, how often, in which order and with which hit count"
	w.emptyIndex(r, "LinearSearch")
	for _, pair := range []bool{false, true} {
		w.engineScenarios(r, "LinearSearch", pair, func(er *engineRun, c *engineCase) {
			er.results(c, func(o res, hs []hit) {
				if !er.exactly(c, o, hs, o.st.ghost["tokens"]) {
					return
				}
				if len(hs) == 2 && hs[0].doc == "e" && hs[1].doc == "d" {
					er.fail(o.st, "returns a later document before an earlier one (%s)", c.label)
				}
			})
		})
	}
}

func checkC19(w *World, r *Report) {
	r.Rule = "abstract interpretation of the hits engine over any query and any index with one or two tracked documents: which of them are returned, how often and with which hit count"
	w.emptyIndex(r, "HitsSearch")
	for _, pair := range []bool{false, true} {
		w.engineScenarios(r, "HitsSearch", pair, func(er *engineRun, c *engineCase) {
			er.results(c, func(o res, hs []hit) {
				er.exactly(c, o, hs, o.st.ghost["tokens"])
			})
		})
	}
}

func checkC22(w *World, r *Report) {
	r.Rule = "abstract interpretation of the no-op engines over any query and any index: the whole result sequence"
	w.emptyIndex(r, "NoopZeroSearch")
	w.emptyIndex(r, "NoopAllSearch")
	w.engineScenarios(r, "NoopZeroSearch", true, func(er *engineRun, c *engineCase) {
		st, arg := er.start()
		for _, o := range er.run(er.fn, st, arg, symIx) {
			got, ok := o.st.content(o.v)
			if !ok {
				er.doubt("the results are not tracked")
			} else if len(o.st.normWord(got)) > 0 {
				er.mismatchW(o.st, got, "returns %s instead of nothing", o.st.wordString(got))
			}
		}
	})
	rt := w.mustType("SearchResult")
	w.engineScenarios(r, "NoopAllSearch", true, func(er *engineRun, c *engineCase) {
		st, arg := er.start()
		for _, o := range er.run(er.fn, st, arg, symIx) {
			got, ok := o.st.content(o.v)
			if !ok {
				er.doubt("the results are not tracked")
				continue
			}
			mk := func(d V) V { return er.record(rt, map[string]V{"Document": d, "Hits": vInt{}}) }
			g := func(k string) Lin { return o.st.ghost["@"+k].(vInt).l }
			want := []seg{{mk(docOld), g("d")}, {mk(er.d), lc(1)}, {mk(docOld), g("e").sub(g("d")).addc(-1)}, {mk(er.e), lc(1)},
				{mk(docOld), g("n").sub(g("e")).addc(-1)}}
			if !o.st.sameWord(got, want) {
				er.mismatchW(o.st, got, "returns %s instead of %s", o.st.wordString(got), o.st.wordString(o.st.normWord(want)))
			}
		}
	})
}

// engineDocs: results carry the documents of the index unchanged.
func (w *World) engineDocs(r *Report, engine string) {
	w.engineScenarios(r, engine, false, func(er *engineRun, c *engineCase) {
		er.results(c, func(o res, hs []hit) {})
	})
}

// C20 -----------------------------------------------------------------------------

func checkC20(w *World, r *Report) {
	r.Rule = "truth table of the comparison of results over all orders of hit counts and identifiers; abstract interpretation of the hits engine with two tracked documents: their order"
	rt := w.mustType("SearchResult")
	less, ln, swap := w.mustMethod("SearchResults", "Less"), w.mustMethod("SearchResults", "Len"), w.mustMethod("SearchResults", "Swap")
	idA, idB := sym("idA"), sym("idB")
	sgn := []string{"less", "equal", "greater"}
	for h := 0; h < 3; h++ {
		for id := 0; id < 3; id++ {
			w.scenario(r, fmt.Sprintf("Less {hits %s, identifier %s}", sgn[h], sgn[id]), less, func(s *scenario) {
				st := newState()
				base := s.fresh()
				ha, hb := base, base
				switch h {
				case 0:
					hb = base.add(s.fresh()).addc(1)
				case 2:
					ha = base.add(s.fresh()).addc(1)
				}
				b := V(idB)
				switch id {
				case 0:
					st.facts["lt idA idB"] = true
				case 1:
					b = idA
				case 2:
					st.facts["lt idA idB"] = false
				}
				va := s.record(rt, map[string]V{"Document": vStruct{[]V{idA, sym("contentA")}}, "Hits": vInt{ha}})
				vb := s.record(rt, map[string]V{"Document": vStruct{[]V{b, sym("contentB")}}, "Hits": vInt{hb}})
				noise := s.record(rt, map[string]V{"Document": docOld, "Hits": vRange{neg: true}})
				i := s.fresh()
				j := i.add(s.fresh()).addc(1)
				st.ghost["i"], st.ghost["j"] = vInt{i}, vInt{j}
				sl := st.array(seg{noise, i}, seg{va, lc(1)}, seg{noise, j.sub(i).addc(-1)}, seg{vb, lc(1)}, seg{noise, s.fresh()})
				st.ghost["list"] = sl
				for _, q := range []struct {
					i, j string
					want bool
				}{
					{"i", "j", h == 2 || h == 1 && id == 0},
					{"j", "i", h == 0 || h == 1 && id == 2},
					{"i", "i", false},
				} {
					c := st.clone()
					for _, o := range s.run(less, c, c.ghost["list"], c.ghost[q.i], c.ghost[q.j]) {
						if v, ok := o.v.(vBool); !ok {
							s.doubt("the comparison is not decided")
						} else if bool(v) != q.want {
							s.fail(o.st, "a result with %s hits and a %s identifier than another: Less(%s, %s) is %v", []string{"fewer", "equal", "more"}[h], sgn[id], q.i, q.j, v)
						}
					}
				}
				c := st.clone()
				for _, o := range s.run(ln, c, c.ghost["list"]) {
					want := s.x.lenOf(o.st, o.st.ghost["list"])
					s.expect(o.st, o.v, want, "Len()")
				}
				c = st.clone()
				for _, o := range s.run(swap, c, c.ghost["list"], c.ghost["i"], c.ghost["j"]) {
					got, ok := o.st.content(o.st.ghost["list"])
					if !ok {
						s.doubt("the list is not tracked")
						continue
					}
					var seq []string
					for _, g := range got {
						if o.st.isFocus(g.v) {
							seq = append(seq, nm(o.st.nv(g.v)))
						}
					}
					if want := []string{nm(o.st.nv(vb)), nm(o.st.nv(va))}; fmt.Sprint(seq) != fmt.Sprint(want) {
						s.mismatchW(o.st, got, "Swap leaves %v", seq)
					}
				}
			})
		}
	}
	w.engineScenarios(r, "HitsSearch", true, func(er *engineRun, c *engineCase) {
		er.results(c, func(o res, hs []hit) {
			if len(hs) != 2 || hs[0].doc == hs[1].doc || c.same {
				return
			}
			first, second := er.d, er.e
			if hs[0].doc == "e" {
				first, second = er.e, er.d
			}
			switch er.order(o.st, first.f[0], second.f[0]) {
			case 1:
			case 0:
				er.fail(o.st, "returns documents with equal hits with the greater identifier first (%s)", c.label)
			default:
				er.fail(o.st, "the order of two documents with equal hits does not depend on their identifiers (%s)", c.label)
			}
		})
	})
}

// order: 1 a<b, 0 a>b, -1 unknown
func (s *scenario) order(st *state, a, b V) int {
	for i, v := range []V{a, b} {
		if nm(v) == nm(sym(emptyName)) {
			return 1 - i
		}
	}
	ka, kb := nm(a), nm(b)
	if f, ok := st.facts["lt "+ka+" "+kb]; ok {
		return b2i(f)
	}
	if f, ok := st.facts["lt "+kb+" "+ka]; ok {
		return b2i(!f)
	}
	return -1
}

// C21 -----------------------------------------------------------------------------

func checkC21(w *World, r *Report) {
	r.Rule = "abstract interpretation of every engine, and of the repository's search, with every order of map iteration and of goroutines: the tracked results and their order are the same in all outcomes that agree on the input"
	nf := 0
	defer func() { r.Cov["functions_checked_for_effects"] = nf }()
	for _, e := range []string{"LinearSearch", "HitsSearch", "NoopAllSearch", "NoopZeroSearch"} {
		why, n := w.varies(w.mustFunc(e), w.mustType("Indexer"))
		nf += n
		if why == "" {
			r.ok(e+" {depends on its arguments only}", w.where(w.mustFunc(e)))
			continue
		}
		r.Assume = append(r.Assume, fmt.Sprintf("%s may vary (%s): its outcomes are compared", e, why))
		w.engineScenarios(r, e, true, func(er *engineRun, c *engineCase) {
			er.x.stableTies = true
			by := map[string]map[string]bool{}
			var first *state
			er.results(c, func(o res, hs []hit) {
				first = o.st
				k := factKey(o.st)
				var p []string
				for i := 0; i < len(hs); i++ {
					n, hits := o.st.n(hs[i].n), ""
					if er.conc {
						hits = " with " + show(o.st.nv(hs[i].hits))
					}
					for i+1 < len(hs) && hs[i+1].doc == hs[i].doc && (!er.conc || er.x.eqTri(o.st, hs[i].hits, hs[i+1].hits) == 1) {
						i++
						n = o.st.n(n.add(hs[i].n))
					}
					p = append(p, fmt.Sprintf("%s*%s%s", hs[i].doc, n, hits))
				}
				if by[k] == nil {
					by[k] = map[string]bool{}
				}
				by[k][strings.Join(p, " ")] = true
			})
			for k, m := range by {
				if len(m) > 1 {
					var l []string
					for s := range m {
						l = append(l, "["+s+"]")
					}
					sort.Strings(l)
					er.fail(first, "the same query has several outcomes: %s (%s %s)", strings.Join(l, " or "), c.label, k)
				}
			}
		})
	}
	fn := w.mustMethod("IndexRepo", "Search")
	drain := w.SSA.Func("vgDrain")
	for _, p := range nameArgs() {
		w.repoOp(r, "Search", []V{p}, func(rr *repoRun, st *state) {
			rr.x.stableTies = true
			by := map[string]map[string]bool{}
			var first *state
			var outs []res
			if rr.x.late { // both schedules
				rr.x.late = false
				outs = rr.run(fn, st.clone(), rr.recv, p, symT, symEng)
				rr.x.late = true
			}
			for _, o := range append(outs, rr.run(fn, st, rr.recv, p, symT, symEng)...) {
				t, isT := o.v.(vTuple)
				if !isT || len(t) != 2 || isNil(t[0]) {
					continue
				}
				first = o.st
				if arrived(o.st, t[0], map[int]bool{}) {
					rr.fail(o.st, "the results are in the order in which goroutines finish (%s)", rr.c.label)
				}
				for _, d := range rr.run(drain, o.st, t[0]) {
					got, ok := d.st.content(d.v)
					if !ok {
						undec("the results read from the stream are not tracked")
					}
					var p []string
					for _, g := range got {
						for _, c := range choices(g.v) {
							if isHit(c) {
								p = append(p, nm(c))
							}
						}
					}
					k := factKey(d.st)
					if by[k] == nil {
						by[k] = map[string]bool{}
					}
					by[k][strings.Join(p, " ")] = true
				}
			}
			for k, m := range by {
				if len(m) > 1 {
					rr.fail(first, "the same query has %d outcomes (%s %s)", len(m), rr.c.label, k)
				}
			}
		})
	}
}

func factKey(st *state) string {
	var f []string
	for k, v := range st.facts {
		f = append(f, fmt.Sprint(k, "=", v))
	}
	sort.Strings(f)
	return strings.Join(f, " ")
}
