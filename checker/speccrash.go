package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// checkC32 repeats the analyses of the other contracts, from every state and
// for every input they consider, and only looks for crashes.
func checkC32(w *World, r *Report) {
	r.Rule = "abstract interpretation of every public operation from every state and input of the other contracts: no path ends in an index out of range, nil dereference, write to a nil map, impossible slice, negative wait group or closed channel"
	r.crashes = true
	rule := r.Rule
	for _, c := range []string{"C07", "C09", "C13", "C17", "C20", "C22", "C23", "C24", "C25", "C26", "C27", "C29", "C30"} {
		r.family = c + " "
		checks[c](w, r)
	}
	r.family = ""
	r.Rule = rule
	w.emptyIndex(r, "LinearSearch")
	w.emptyIndex(r, "HitsSearch")
	w.repoOp(r, "String", []V{symP}, func(rr *repoRun, st *state) {
		rr.run(w.mustMethod("IndexRepo", "String"), st, rr.recv)
	})
	w.newIndex(r)
	for _, f := range []struct {
		typ, name string
		nargs     int
	}{{"Doc", "Hash", 0}, {"Stemmer", "Stem", 1}} {
		fn := w.method(w.mustType(f.typ), f.name)
		if fn == nil {
			continue
		}
		w.scenario(r, f.typ+"."+f.name, fn, func(s *scenario) {
			args := []V{sym("receiver")}
			if f.typ == "Doc" {
				args[0] = docF
			}
			for i := 0; i < f.nargs; i++ {
				args = append(args, sym("argument"))
			}
			s.run(fn, newState(), args...)
		})
	}
	ctor := w.mustFunc("NewSnowball")
	w.scenario(r, "NewSnowball", ctor, func(s *scenario) { s.run(ctor, newState()) })
	r.wg.Wait()
	seen, _ := r.Cov["functions"].(map[string]bool)
	var rest []string
	public := w.public()
	for _, f := range public {
		if !seen[fnName(f)] {
			rest = append(rest, fnName(f))
		}
	}
	sort.Strings(rest)
	r.Cov["public_functions"] = len(public)
	r.Cov["public_functions_not_analysed"] = rest
}

// newIndex: the operations on an index without documents, and its text form.
func (w *World) newIndex(r *Report) {
	build := w.mustFunc("NewMemoryIndexBuilder")
	for _, op := range []string{"Put", "Search", "Indexed", "Len", "String"} {
		fn := w.mustMethod("MemoryIndex", op)
		w.scenario(r, op+" {new index}", fn, func(s *scenario) {
			ir := &indexRun{scenario: s, w: w, tau: symTau}
			ir.tokens = func() []seg { return []seg{{clsTok, s.fresh()}, {symTau, lc(1)}} }
			s.x.hook = ir.hook
			st := newState()
			for _, b := range s.run(build, st, symTkr) {
				for _, o := range s.x.callValue(b.st, b.v, nil, []V{sym("name")}, nil) {
					if o.pan != "" {
						s.failed(o.st, "crashes: %s at %s", o.pan, o.at)
						continue
					}
					v := o.v
					if i, ok := v.(vIface); ok {
						v = i.v
					}
					args := []V{v}
					st := o.st
					st.ghost["index"] = v
					switch op {
					case "Put":
						var req V
						st, req = ir.request(st)
						args = append(args, req)
					case "Search":
						args = append(args, sym("text"), symEng)
					case "Indexed":
						args = append(args, symTau)
					}
					s.run(fn, st, args...)
				}
			}
		})
	}
	fn := w.mustMethod("MemoryIndex", "String")
	w.indexCases(r, "String", func(ir *indexRun, tc tokenCase) {
		st := ir.start()
		ir.run(fn, st, st.ghost["index"])
	})
}

// public: the exported functions and methods of the package.
func (w *World) public() []*ssa.Function {
	var out []*ssa.Function
	for _, m := range w.SSA.Members {
		if f, ok := m.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() && !isHarness(f) {
			out = append(out, f)
		}
	}
	for _, n := range w.namedTypes() {
		if _, ok := n.Underlying().(*types.Interface); ok || !n.Obj().Exported() {
			continue
		}
		for _, m := range w.exportedMethods(n) {
			if o, ok := m.Object().(*types.Func); ok && m.Synthetic != "" {
				m = w.Prog.FuncValue(o) // the wrapper of a method of values
			}
			out = append(out, m)
		}
	}
	return out
}
