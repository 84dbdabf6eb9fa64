package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Contracts of documents and requests (C24) and of text analysis (C25-C27).

// expect compares a value with the wanted one.
func (s *scenario) expect(st *state, got, want V, f string, a ...any) bool {
	if got != nil && s.x.eqTri(st, got, want) == 1 || nm(st.nv(got)) == nm(st.nv(want)) {
		return true
	}
	s.mismatch(st, got, "%s: %s instead of %s", fmt.Sprintf(f, a...), show(st.nv(got)), show(st.nv(want)))
	return false
}

// accessor runs a method without arguments and compares its result.
func (s *scenario) accessor(w *World, st *state, typ, method string, recv, want V, what string) {
	m := w.mustMethod(typ, method)
	for _, o := range s.run(m, st.clone(), recv) {
		s.expect(o.st, o.v, want, "%s: %s()", what, method)
	}
}

func checkC24(w *World, r *Report) {
	r.Rule = "abstract interpretation of the constructors, accessors, Put and Document with arbitrary field values: every field comes back as given"
	empty := V(vStr(""))
	variants := [][3]V{
		{symName, symCont, symStmt}, {symName, empty, symStmt}, {symName, symCont, empty}, {empty, symCont, symStmt},
		{empty, empty, empty}, {symName, symName, symName}, {symName, symCont, symCont}, {symName, empty, empty},
	}
	for _, v := range variants {
		name, cont, stmt := v[0], v[1], v[2]
		lab := fmt.Sprintf("{%s, %s, %s}", nm(name), nm(cont), nm(stmt))
		if nm(stmt) == nm(symStmt) || nm(stmt) == nm(cont) {
			w.scenario(r, "NewDoc "+lab, w.mustFunc("NewDoc"), func(s *scenario) {
				for _, o := range s.run(w.mustFunc("NewDoc"), newState(), name, cont) {
					s.accessor(w, o.st, "Doc", "ID", o.v, name, "document")
					s.accessor(w, o.st, "Doc", "Raw", o.v, cont, "document")
				}
			})
		}
		type ctor struct {
			fn   string
			args []V
			stmt V
			mime int
		}
		type putCase struct {
			key  string
			fn   *ssa.Function
			args []V
			stmt V
			mime int
		}
		var puts []putCase
		cs := []ctor{{"NewDocRequest", []V{name, cont}, cont, 1}, {"NewDocRequestWith", []V{name, cont, stmt}, stmt, 1}}
		for _, m := range []int{0, 1, 2, 3, 255} {
			cs = append(cs, ctor{"NewDocRequestWithMime", []V{name, cont, vInt{lc(m)}}, cont, m})
		}
		for _, c := range cs {
			key := fmt.Sprintf("%s %s", c.fn, lab)
			if len(c.args) == 3 && c.fn == "NewDocRequestWithMime" {
				key += fmt.Sprintf(" mime %d", c.mime)
			}
			fn := w.mustFunc(c.fn)
			w.scenario(r, key, fn, func(s *scenario) {
				for _, o := range s.run(fn, newState(), c.args...) {
					s.accessor(w, o.st, "DocRequest", "ID", o.v, name, "request")
					s.accessor(w, o.st, "DocRequest", "Raw", o.v, cont, "request")
					s.accessor(w, o.st, "DocRequest", "Statement", o.v, c.stmt, "request")
					s.accessor(w, o.st, "DocRequest", "Mime", o.v, vInt{lc(c.mime)}, "request")
				}
			})
			puts = append(puts, putCase{key, fn, c.args, c.stmt, -1})
			if c.fn == "NewDocRequestWith" {
				// the type of the content is an exported field
				for _, m := range []int{0, 2, 3, 255} {
					puts = append(puts, putCase{fmt.Sprintf("%s with mime %d", key, m), fn, c.args, c.stmt, m})
				}
			}
		}
		for _, c := range puts {
			fn := c.fn
			put := w.mustMethod("MemoryIndex", "Put")
			w.scenario(r, "Put("+c.key+")", put, func(s *scenario) {
				ir := &indexRun{scenario: s, w: w, tau: symTau}
				ir.tokens = func() []seg { return []seg{{clsTok, s.fresh()}, {symTau, lc(1)}} }
				st := ir.start()
				for _, q := range s.run(fn, st, c.args...) {
					if c.mime >= 0 {
						q.v = withField(w.mustType("DocRequest"), q.v, "MimeType", vInt{lc(c.mime)})
					}
					for _, o := range s.run(put, q.st, q.st.ghost["index"], q.v) {
						n := o.st.ghost["n"].(vInt)
						for _, d := range s.run(ir.method("Document"), o.st.clone(), o.st.ghost["index"], n) {
							s.accessor(w, d.st, "Doc", "ID", d.v, name, "stored document")
							s.accessor(w, d.st, "Doc", "Raw", d.v, cont, "stored document")
						}
						for _, d := range s.run(ir.method("Document"), o.st.clone(), o.st.ghost["index"], o.st.ghost["d"]) {
							s.expect(d.st, d.v, docF, "an earlier document")
						}
						for _, g := range o.st.events() {
							for _, c2 := range choices(g.v) {
								if t, ok := c2.(vTerm); ok && t.op == "tokenize" {
									s.expect(o.st, t.args[1], c.stmt, "the searchable text")
								}
							}
						}
					}
				}
			})
		}
	}
	res := w.mustType("SearchResult")
	w.scenario(r, "SearchResult", w.mustMethod("SearchResult", "GetDoc"), func(s *scenario) {
		st := newState()
		h := vInt{s.fresh()}
		st.ghost["h"] = h
		v := s.record(res, map[string]V{"Document": docF, "Hits": h})
		s.accessor(w, st, "SearchResult", "GetDoc", v, docF, "result")
		s.accessor(w, st, "SearchResult", "Doc", v, docF, "result")
		for _, o := range s.run(w.mustMethod("SearchResult", "GetHits"), st.clone(), v) {
			s.expect(o.st, o.v, o.st.ghost["h"], "result: GetHits()")
		}
	})
	for _, e := range []string{"LinearSearch", "HitsSearch", "NoopAllSearch"} {
		w.engineDocs(r, e)
	}
}

// record builds a struct value by field names.
func (s *scenario) record(t types.Type, f map[string]V) V {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		undec("%s is not a struct", t)
	}
	v := zero(t).(vStruct)
	n := 0
	for i := 0; i < u.NumFields(); i++ {
		if y, ok := f[u.Field(i).Name()]; ok {
			v.f[i] = y
			n++
		}
	}
	if n != len(f) {
		undec("%s does not have the fields expected", t)
	}
	return v
}

// withField sets an exported field.
func withField(t types.Type, v V, name string, to V) V {
	u, ok := t.Underlying().(*types.Struct)
	sv, isS := v.(vStruct)
	if !ok || !isS {
		undec("%s is not a struct", t)
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return setField(sv, i, to)
		}
	}
	undec("%s has no field %s", t, name)
	return nil
}

// C25 -------------------------------------------------------------------------------

var (
	symText = sym("text")
	symRune = vTerm{op: "rune"}
	clsTk   = class("field")
	symTk   = sym("fieldF")
)

// fieldsFunc models strings.FieldsFunc: the predicate is evaluated for the
// tracked character.
func fieldsFunc(s *scenario, char V) func(x *interp, st *state, c *callInfo) ([]res, bool) {
	return func(x *interp, st *state, c *callInfo) ([]res, bool) {
		if c.kind != "static" || c.name != "strings.FieldsFunc" || len(c.args) != 2 {
			return nil, false
		}
		var out []res
		for _, r := range x.callValue(st, c.args[1], nil, []V{char}, c.in) {
			if r.pan != "" {
				out = append(out, r)
				continue
			}
			r.st.event(app("split", c.args[0], r.v))
			w := []seg{{clsTk, s.fresh()}, {symTk, lc(1)}, {clsTk, s.fresh()}}
			r.st.keep("fields", w)
			out = append(out, res{st: r.st, v: r.st.array(w...)})
			// no token at all
			e := r.st.clone()
			e.keep("fields", nil)
			out = append(out, res{st: e, v: e.array()})
		}
		return out, true
	}
}

// splitWell: the text was split once, as a whole, at the character iff wanted,
// and the fields are returned.
func splitWell(s *scenario, o res, want bool, what string) {
	var ev []vTerm
	for _, g := range o.st.events() {
		t, ok := g.v.(vTerm)
		if !ok || t.op != "split" || !o.st.eqLin(g.n, lc(1)) {
			s.doubt("the text is not split in a way that is understood")
			return
		}
		ev = append(ev, t)
	}
	if len(ev) != 1 {
		s.doubt("the text is not split in a way that is understood")
		return
	}
	s.expect(o.st, ev[0].args[0], symText, "the text that is split")
	if b, ok := ev[0].args[1].(vBool); !ok {
		s.doubt("whether %s separates tokens is unknown", what)
	} else if bool(b) != want {
		if want {
			s.fail(o.st, "%s, which no predicate accepts, becomes part of tokens", what)
		} else {
			s.fail(o.st, "%s, which is accepted, separates tokens", what)
		}
	}
	got, ok := o.st.content(o.v)
	if !ok {
		s.doubt("the tokens are not tracked")
	} else if !o.st.sameWord(got, o.st.kept("fields")) {
		s.mismatchW(o.st, got, "the tokens are %s instead of %s", o.st.wordString(got), o.st.wordString(o.st.normWord(o.st.kept("fields"))))
	}
}

func checkC25(w *World, r *Report) {
	r.Rule = "abstract interpretation of the clean tokenizer with any number of arbitrary predicates: a character separates tokens iff no predicate accepts it; truth table of the alphanumeric predicate over the classes of characters its tests distinguish"
	tok := w.mustMethod("CleanTokenizer", "Tokenize")
	ctor := w.mustFunc("NewCleanTokenizer")
	clsF, symF := class("predicate"), sym("predicateF")
	for _, accepted := range []bool{true, false} {
		for _, shape := range []string{"one of many", "many", "none"} {
			if accepted != (shape == "one of many") {
				continue
			}
			w.scenario(r, fmt.Sprintf("Tokenize {%s predicates, accepted %v}", shape, accepted), tok, func(s *scenario) {
				ff := fieldsFunc(s, symRune)
				s.x.hook = func(x *interp, st *state, c *callInfo) ([]res, bool) {
					if rs, ok := ff(x, st, c); ok {
						return rs, true
					}
					if c.kind == "value" && len(c.args) == 1 {
						if nm(c.args[0]) != nm(symRune) {
							st.note("predicate asked about another character")
							return []res{{st: st, v: vBool(true)}, {st: st.clone(), v: vBool(false)}}, true
						}
						switch {
						case nm(c.recv) == nm(symF):
							return one(st, vBool(true)), true
						case nm(c.recv) == nm(clsF) && !accepted:
							return one(st, vBool(false)), true
						case nm(c.recv) == nm(clsF):
							return []res{{st: st, v: vBool(true)}, {st: st.clone(), v: vBool(false)}}, true
						}
					}
					return nil, false
				}
				st := newState()
				var fns V = vNil{}
				switch shape {
				case "one of many":
					fns = st.array(seg{clsF, s.fresh()}, seg{symF, lc(1)}, seg{clsF, s.fresh()})
				case "many":
					fns = st.array(seg{clsF, s.fresh().addc(1)})
				}
				for _, c := range s.run(ctor, st, fns) {
					v := c.v
					if _, ok := v.(vPtr); !ok {
						v = vPtr{obj: c.st.alloc(&obj{kind: 'c', v: v})}
					}
					for _, o := range s.run(tok, c.st, v, symText) {
						splitWell(s, o, !accepted, "a character")
					}
				}
			})
		}
	}
	alnum := w.mustFunc("NewKeepAlphanumericTokenizer")
	for _, b := range runeBlocks(w, alnum, tok) {
		w.scenario(r, fmt.Sprintf("NewKeepAlphanumericTokenizer {%s}", b.label), alnum, func(s *scenario) {
			ff := fieldsFunc(s, vInt{lc(int(b.rep))})
			s.x.hook = func(x *interp, st *state, c *callInfo) ([]res, bool) {
				if rs, ok := ff(x, st, c); ok {
					return rs, true
				}
				return unicodeCall(x, st, c)
			}
			for _, c := range s.run(alnum, newState()) {
				v := c.v
				if _, ok := v.(vPtr); !ok {
					v = vPtr{obj: c.st.alloc(&obj{kind: 'c', v: v})}
				}
				for _, o := range s.run(tok, c.st, v, symText) {
					splitWell(s, o, !(unicode.IsLetter(b.rep) || unicode.IsNumber(b.rep)), fmt.Sprintf("%U (%s)", b.rep, b.label))
				}
			}
		})
	}
}

// runeBlock is a set of characters that no test in the code tells apart: same
// general category, same side of every integer constant.
type runeBlock struct {
	label string
	rep   rune
}

func category(r rune) string {
	for n, t := range unicode.Categories {
		if len(n) == 2 && n != "LC" && unicode.Is(t, r) {
			return n
		}
	}
	return "Cn"
}

func runeBlocks(w *World, fns ...*ssa.Function) []runeBlock {
	cs := map[int64]bool{0: true, 0x80: true, 0x100: true, 0x10000: true}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		if p := fnPkg(f); p == nil || p != w.Pkg.Types {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Const:
						if v.Value != nil && v.Value.Kind() == constant.Int {
							if n, ok := constant.Int64Val(v.Value); ok && n > 0 && n < unicode.MaxRune {
								cs[n], cs[n+1] = true, true
							}
						}
					case *ssa.Function:
						walk(v)
					}
				}
			}
		}
	}
	for _, f := range fns {
		walk(f)
	}
	var cuts []int64
	for c := range cs {
		cuts = append(cuts, c)
	}
	sort.Slice(cuts, func(i, j int) bool { return cuts[i] < cuts[j] })
	have := map[string]bool{}
	var out []runeBlock
	k := 0
	cats := runeCategories()
	for r := rune(0); r <= unicode.MaxRune; r++ {
		for k+1 < len(cuts) && int64(r) >= cuts[k+1] {
			k++
		}
		key := fmt.Sprintf("%s from %U", cats[r], cuts[k])
		if !have[key] {
			have[key] = true
			out = append(out, runeBlock{key, r})
		}
	}
	return out
}

var catTable []string

func runeCategories() []string {
	cacheMu.Lock()
	defer cacheMu.Unlock()
	if catTable != nil {
		return catTable
	}
	catTable = make([]string, unicode.MaxRune+1)
	for i := range catTable {
		catTable[i] = "Cn"
	}
	for n, t := range unicode.Categories {
		if len(n) != 2 || n == "LC" || n == "Cn" {
			continue
		}
		for _, r := range t.R16 {
			for c := int(r.Lo); c <= int(r.Hi); c += int(r.Stride) {
				catTable[c] = n
			}
		}
		for _, r := range t.R32 {
			for c := int(r.Lo); c <= int(r.Hi); c += int(r.Stride) {
				catTable[c] = n
			}
		}
	}
	return catTable
}

// unicodeCall evaluates the predicates of package unicode that depend on the
// general category (or on Latin-1) only.
func unicodeCall(x *interp, st *state, c *callInfo) ([]res, bool) {
	if c.kind != "static" {
		return nil, false
	}
	preds := map[string]func(rune) bool{
		"unicode.IsLetter": unicode.IsLetter, "unicode.IsNumber": unicode.IsNumber, "unicode.IsDigit": unicode.IsDigit,
		"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsTitle": unicode.IsTitle,
		"unicode.IsMark": unicode.IsMark, "unicode.IsPunct": unicode.IsPunct, "unicode.IsSymbol": unicode.IsSymbol,
		"unicode.IsControl": unicode.IsControl, "unicode.IsGraphic": unicode.IsGraphic, "unicode.IsPrint": unicode.IsPrint,
		"unicode.IsSpace": unicode.IsSpace,
	}
	one1 := func() (rune, bool) {
		if len(c.args) == 0 {
			return 0, false
		}
		i, ok := c.args[0].(vInt)
		if !ok || !st.n(i.l).isConst() {
			return 0, false
		}
		return rune(st.n(i.l).C), true
	}
	if p, ok := preds[c.name]; ok {
		if r, ok := one1(); ok {
			return one(st, vBool(p(r))), true
		}
	}
	tab := func(v V) *unicode.RangeTable {
		t, ok := v.(vTerm)
		if !ok || t.op != "global" || len(t.args) != 1 {
			return nil
		}
		n, _ := t.args[0].(vStr)
		for _, e := range []struct {
			n string
			t *unicode.RangeTable
		}{
			{"unicode.Letter", unicode.L}, {"unicode.L", unicode.L}, {"unicode.Number", unicode.N}, {"unicode.N", unicode.N},
			{"unicode.Digit", unicode.Nd}, {"unicode.Nd", unicode.Nd}, {"unicode.Nl", unicode.Nl}, {"unicode.No", unicode.No},
			{"unicode.Lu", unicode.Lu}, {"unicode.Ll", unicode.Ll}, {"unicode.Lt", unicode.Lt}, {"unicode.Lm", unicode.Lm},
			{"unicode.Lo", unicode.Lo}, {"unicode.Upper", unicode.Lu}, {"unicode.Lower", unicode.Ll}, {"unicode.Title", unicode.Lt},
			{"unicode.Mark", unicode.M}, {"unicode.M", unicode.M}, {"unicode.Mn", unicode.Mn}, {"unicode.Mc", unicode.Mc}, {"unicode.Me", unicode.Me},
		} {
			if string(n) == e.n {
				return e.t
			}
		}
		return nil
	}
	switch c.name {
	case "unicode.Is":
		if len(c.args) == 2 {
			if t := tab(c.args[0]); t != nil {
				if i, ok := c.args[1].(vInt); ok && st.n(i.l).isConst() {
					return one(st, vBool(unicode.Is(t, rune(st.n(i.l).C)))), true
				}
			}
		}
	case "unicode.In", "unicode.IsOneOf":
		ri, ti := 0, 1
		if c.name == "unicode.IsOneOf" {
			ri, ti = 1, 0
		}
		if i, ok := c.args[ri].(vInt); ok && st.n(i.l).isConst() {
			w, ok := st.content(c.args[ti])
			if !ok {
				return nil, false
			}
			in := false
			for _, g := range w {
				t := tab(g.v)
				if t == nil {
					return nil, false
				}
				in = in || unicode.Is(t, rune(st.n(i.l).C))
			}
			return one(st, vBool(in)), true
		}
	}
	return nil, false
}

// C26 -------------------------------------------------------------------------------

func checkC26(w *World, r *Report) {
	r.Rule = "abstract interpretation of the token filters over any number of tokens: the output word equals the specified one"
	t1, t2 := sym("tau1"), sym("tau2")
	empty := V(sym(emptyName))
	gap := func(s *scenario) seg { return seg{clsTok, s.fresh()} }
	type input struct {
		label string
		w     func(s *scenario) []seg
	}
	ins := []input{
		{"no tokens (nil)", func(*scenario) []seg { return nil }},
		{"no tokens", func(*scenario) []seg { return []seg{} }},
		{"any token", func(s *scenario) []seg { return []seg{gap(s), {t1, lc(1)}, gap(s)} }},
		{"the empty token", func(s *scenario) []seg { return []seg{gap(s), {empty, lc(1)}, gap(s)} }},
		{"two tokens", func(s *scenario) []seg { return []seg{gap(s), {t1, lc(1)}, gap(s), {t2, lc(1)}, gap(s)} }},
		{"a token twice", func(s *scenario) []seg { return []seg{gap(s), {t1, lc(1)}, gap(s), {sym("tau1'"), lc(1)}, gap(s)} }},
	}
	mapAll := func(st *state, w []seg, f func(V) V) []seg {
		var out []seg
		for _, g := range w {
			out = append(out, seg{f(g.v), g.n})
		}
		return out
	}
	each := func(name, typ string, mk func(s *scenario, st *state) []res, want func(V) V) {
		filter := w.mustMethod(typ, "Filter")
		for _, in := range ins {
			w.scenario(r, name+" {"+in.label+"}", filter, func(s *scenario) {
				st := newState()
				tw := in.w(s)
				var arg V = vNil{}
				if tw != nil {
					arg = st.array(tw...)
				}
				st.keep("input", tw)
				st.ghost["arg"] = arg
				for _, c := range mk(s, st) {
					for _, o := range s.run(filter, c.st, c.v, c.st.ghost["arg"]) {
						got, ok := o.st.content(o.v)
						if !ok {
							s.doubt("the output is not tracked")
							continue
						}
						exp := o.st.normWord(mapAll(o.st, o.st.kept("input"), want))
						if !sameText(s.x, o.st, got, exp) {
							s.mismatchW(o.st, got, "yields %s instead of %s", o.st.wordString(got), o.st.wordString(exp))
						}
						s.untouched(o.st)
					}
				}
			})
		}
	}
	each("LowerCaseFilter", "LowerCaseFilter", func(s *scenario, st *state) []res {
		return s.run(w.mustFunc("NewLowerCaseTokenizer"), st)
	}, func(v V) V { return app("lower", v) })
	for _, b := range []bool{true, false} {
		each(fmt.Sprintf("SpanishStemmerFilter(%v)", b), "SpanishStemmerFilter", func(s *scenario, st *state) []res {
			return s.run(w.mustFunc("NewSpanishStemmer"), st, vBool(b))
		}, func(v V) V { return app("stem", v, vBool(b)) })
	}
	filter := w.mustMethod("StopWordsFilter", "Filter")
	for _, in := range ins {
		for _, words := range []V{sym("stopwords"), vNil{}} {
			w.scenario(r, "StopWordsFilter {"+in.label+", words "+nm(words)+"}", filter, func(s *scenario) {
				st := newState()
				tw := in.w(s)
				var arg V = vNil{}
				if tw != nil {
					arg = st.array(tw...)
				}
				st.keep("input", tw)
				st.ghost["arg"] = arg
				for _, c := range s.run(w.mustFunc("NewStopWordsFilter"), st, words) {
					for _, o := range s.run(filter, c.st, c.v, c.st.ghost["arg"]) {
						s.stopped(o, words)
					}
				}
			})
		}
	}
}

// untouched: the filter left its input alone.
func (s *scenario) untouched(st *state) {
	got, ok := st.content(st.ghost["arg"])
	if !ok {
		s.doubt("the input is not tracked")
	} else if !st.sameWord(got, st.kept("input")) {
		s.mismatchW(st, got, "the input became %s", st.wordString(got))
	}
}

// sameText is sameWord up to equal values.
func sameText(x *interp, st *state, a, b []seg) bool {
	if st.sameWord(a, b) {
		return true
	}
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !st.eqLin(a[i].n, b[i].n) || nm(a[i].v) != nm(b[i].v) && x.eqTri(st, a[i].v, b[i].v) != 1 {
			return false
		}
	}
	return true
}

// stopped: tracked tokens are kept iff they are no stop words; of the others
// none is new.
func (s *scenario) stopped(o res, words V) {
	st := o.st
	s.untouched(st)
	got, ok := st.content(o.v)
	if !ok {
		s.doubt("the output is not tracked")
		return
	}
	var want []seg
	for _, g := range st.normWord(st.kept("input")) {
		if termClass(g.v) {
			continue
		}
		if !isNil(words) {
			in, known := st.facts["in "+nm(words)+" "+nm(unprime(g.v))]
			if !known {
				s.fail(st, "the token %s is not looked up", nm(g.v))
				return
			}
			if in {
				continue
			}
		}
		want = append(want, g)
	}
	seq, stray := st.focusSeq(got, func(v V) bool { return !termClass(v) }, func(v V) bool { return nm(v) == nm(clsTok) })
	if stray != nil {
		s.mismatch(st, stray, "yields %s", nm(stray))
		return
	}
	if !sameText(s.x, st, seq, want) {
		s.mismatchW(st, got, "keeps the tokens %s instead of %s", st.wordString(seq), st.wordString(want))
		return
	}
	if isNil(words) && !st.sameWord(got, st.kept("input")) {
		s.mismatchW(st, got, "yields %s without stop words", st.wordString(got))
	}
}

// C27 -------------------------------------------------------------------------------

func checkC27(w *World, r *Report) {
	r.Rule = "abstract interpretation of the pipeline with any number of filters, each returning anything: each filter is run once, in order, on the output of the stage before it"
	tok := w.mustMethod("TokenizationPipeline", "Tokenize")
	ctor := w.mustFunc("NewTokenizationPipeline")
	f1, f2, clsF := sym("filter1"), sym("filter2"), class("filter")
	symTk0 := sym("tokenizer0")
	gap := func(s *scenario) seg { return seg{clsF, s.fresh()} }
	shapes := []struct {
		label string
		w     func(s *scenario) []seg
	}{
		{"no filters", func(*scenario) []seg { return nil }},
		{"one tracked filter", func(s *scenario) []seg { return []seg{gap(s), {f1, lc(1)}, gap(s)} }},
		{"two tracked filters", func(s *scenario) []seg { return []seg{gap(s), {f1, lc(1)}, gap(s), {f2, lc(1)}, gap(s)} }},
		{"a filter twice", func(s *scenario) []seg { return []seg{gap(s), {f1, lc(1)}, gap(s), {f1, lc(1)}, gap(s)} }},
	}
	for _, sh := range shapes {
		w.scenario(r, "Tokenize {"+sh.label+"}", tok, func(s *scenario) {
			stage := func(st *state) []res {
				// anything: nothing, nil, or tokens
				k := 0
				for _, g := range st.events() {
					k += st.n(g.n).C
				}
				var tk V = class("stage output")
				if s.conc {
					tk = sym(fmt.Sprintf("output%d", k))
				}
				full := st.clone()
				a := full.array(seg{tk, s.fresh().addc(1)})
				full.ghost["prev"] = a
				null := st.clone()
				null.ghost["prev"] = vNil{}
				st.ghost["prev"] = st.array()
				return []res{{st: full, v: a}, {st: null, v: vNil{}}, {st: st, v: st.ghost["prev"]}}
			}
			fed := func(st *state, got V) bool {
				prev := st.ghost["prev"]
				if prev == nil {
					return false
				}
				if nm(st.nv(prev)) == nm(st.nv(got)) {
					return true
				}
				a, ok1 := st.content(prev)
				b, ok2 := st.content(got)
				return ok1 && ok2 && st.sameWord(a, b)
			}
			s.x.hook = func(x *interp, st *state, c *callInfo) ([]res, bool) {
				if c.kind != "invoke" || len(c.args) != 1 {
					return nil, false
				}
				switch c.name {
				case "Tokenize":
					if nm(c.recv) != nm(symTk0) || nm(c.args[0]) != nm(symText) {
						st.event(app("wrong tokenize", c.recv, c.args[0]))
					}
					st.event(app("tokenize"))
					return stage(st), true
				case "Filter":
					if !fed(st, c.args[0]) {
						st.event(app("not fed the output of the stage before", c.recv))
					}
					st.event(c.recv)
					return stage(st), true
				}
				return nil, false
			}
			st := newState()
			fw := sh.w(s)
			var arg V = vNil{}
			if fw != nil {
				arg = st.array(fw...)
			}
			st.keep("filters", fw)
			for _, c := range s.run(ctor, st, symTk0, arg) {
				for _, o := range s.run(tok, c.st, c.v, symText) {
					want := append([]seg{{app("tokenize"), lc(1)}}, o.st.kept("filters")...)
					ev := o.st.events()
					if !o.st.sameWord(ev, want) {
						s.mismatchW(o.st, ev, "runs %s instead of %s", o.st.wordString(ev), o.st.wordString(o.st.normWord(want)))
						continue
					}
					if !fed(o.st, o.v) {
						s.mismatch(o.st, o.v, "does not return the output of the last stage")
					}
				}
			}
		})
	}
}
