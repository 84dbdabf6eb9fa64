package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Mod/ref, escape and freshness rules on top of the access-path domain of
// engine L: R# names objects of the system under analysis, G# package-level
// variables, L# objects allocated by the call analysed, P# arguments.

type memRun struct {
	e    *lockEngine
	outs []lout
}

func (w *World) memExec(fn *ssa.Function, args, binds []lv, prefix string, st *lstate) *memRun {
	e := newLockEngine(w)
	e.op = fnName(fn)
	e.prefix = prefix
	if st == nil {
		st = &lstate{cells: map[string][]lv{}, ren: map[string]string{}}
	}
	outs := e.exec(fn, args, binds, "m", st)
	m := &memRun{e: e}
	for _, o := range outs {
		for _, p := range o.st.pend {
			for _, a := range p.accs {
				e.emit(o.st, a)
			}
		}
		if !o.st.panic {
			m.outs = append(m.outs, o)
		}
	}
	return m
}

// entryArgs names the receiver R#recv and the arguments P#name.
func entryArgs(fn *ssa.Function, shared map[int]string) []lv {
	var args []lv
	for i, p := range fn.Params {
		v := lv{it: ifaceOf(p.Type())}
		if isRefType(p.Type()) && !isFuncType(p.Type()) {
			v.k, v.n = 'r', "P#!"+p.Name()
			if s, ok := shared[i]; ok {
				v.n = s
			}
		}
		args = append(args, v)
	}
	return args
}

// writes lists the writes to shared objects whose name starts with a prefix.
func (m *memRun) writes(prefixes ...string) []levent {
	var r []levent
	for _, ev := range m.e.events {
		if !ev.acc.w {
			continue
		}
		for _, p := range prefixes {
			if strings.HasPrefix(ev.acc.name, p) {
				r = append(r, ev)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].acc.name+r[i].site < r[j].acc.name+r[j].site })
	return r
}

// reach lists the mutable objects reachable from a value, with the path.
func (m *memRun) reach(st *lstate, v lv, t types.Type) map[string]string {
	out := map[string]string{}
	r := &lrun{e: m.e}
	c := &lcfg{env: map[ssa.Value]lv{}, st: st}
	var walk func(v lv, t types.Type, path string, depth int)
	walk = func(v lv, t types.Type, path string, depth int) {
		if depth > 8 || v.k == 'c' {
			return
		}
		if v.k == 'f' {
			for _, b := range v.b {
				walk(b, types.NewPointer(types.Typ[types.Invalid]), path+"(captured)", depth+1)
			}
			return
		}
		if v.k != 'r' || t == nil {
			return
		}
		n := st.canon(v.n)
		local := isLocal(n)
		sub := func(a lv, et types.Type, p string) {
			if et == types.Typ[types.Invalid] {
				for k, vs := range st.cells {
					if k == a.n {
						for _, x := range vs {
							walk(x, types.NewPointer(types.Typ[types.Invalid]), p, depth+1)
						}
					}
				}
				return
			}
			if !isRefType(et) {
				return
			}
			if _, isStruct := et.Underlying().(*types.Struct); !isStruct && local && len(st.cells[a.n]) == 0 {
				return
			}
			for _, x := range r.load(c, a, et) {
				walk(x, et, p, depth+1)
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				sub(lv{k: 'r', n: n + "." + f.Name()}, f.Type(), path+"."+f.Name())
			}
		case *types.Pointer:
			if _, ok := out[n]; ok {
				return
			}
			out[n] = path
			sub(lv{k: 'r', n: n}, u.Elem(), path)
		case *types.Map:
			if _, ok := out[n]; ok {
				return
			}
			out[n] = path
			sub(lv{k: 'r', n: n + "{}"}, u.Elem(), path+"[...]")
		case *types.Slice:
			if _, ok := out[n]; ok {
				return
			}
			out[n] = path
			sub(lv{k: 'r', n: n + "[*]"}, u.Elem(), path+"[...]")
		case *types.Chan:
			out[n] = path
		case *types.Interface:
			if v.dyn != nil && !types.IsInterface(v.dyn) {
				walk(v, v.dyn, path, depth)
			} else if !strings.HasPrefix(n, "P#") && !local {
				// contents of unknown dynamic type
				out[n+" (interface)"] = path
			}
		}
	}
	walk(v, t, "result", 0)
	return out
}

type entry struct {
	fn   *ssa.Function
	name string
	args []lv
}

func (w *World) entry(typ, method string) entry {
	f := w.mustMethod(typ, method)
	return entry{f, typ + "." + method, entryArgs(f, map[int]string{0: "R#!" + strings.ToLower(typ)})}
}

// engines are the package's exported functions usable as search engines.
func (w *World) engines() []entry {
	et := w.mustType("Engine").Underlying()
	var r []entry
	for _, m := range w.SSA.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Object() == nil || !f.Object().Exported() || f.Blocks == nil || f.Signature.Recv() != nil {
			continue
		}
		if types.Identical(f.Signature, et) {
			args := entryArgs(f, map[int]string{1: "R#!index"})
			args[1].it = f.Params[1].Type()
			r = append(r, entry{f, f.Name(), args})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}

var readOps = [][]string{
	{"IndexRepo", "List", "ListAliases", "Has", "HasAlias", "Search", "String"},
	{"MemoryIndex", "Len", "Indexed", "Document", "String", "Search"},
	{"Doc", "ID", "Raw", "Hash"},
	{"DocRequest", "ID", "Raw", "Mime", "Statement"},
	{"SearchResult", "GetDoc", "GetHits", "Doc", "MarshalJSON", "MarshalEasyJSON"},
	{"SearchResults", "Len", "Less"},
	{"CleanTokenizer", "Tokenize"},
	{"TokenizationPipeline", "Tokenize"},
	{"LowerCaseFilter", "Filter"},
	{"StopWordsFilter", "Filter"},
	{"SpanishStemmerFilter", "Filter"},
}

func (w *World) readEntries() []entry {
	var r []entry
	for _, o := range readOps {
		for _, m := range o[1:] {
			r = append(r, w.entry(o[0], m))
		}
	}
	return append(r, w.engines()...)
}

func (m *memRun) undecided(r *Report, en entry) {
	for _, v := range m.e.viol {
		if v.soft {
			r.unknown(en.name+": "+v.key, v.where, "%s", v.detail)
		}
	}
	if len(m.outs) == 0 {
		r.unknown(en.name+": no normal exit", "-", "the analysis found no path on which %s returns", en.name)
	}
}

func checkC14(w *World, r *Report) {
	r.Rule = "no store, map update or append on a path from a read operation targets an object of the repository, an index, an analysis component or a package-level variable (flow- and context-sensitive mod analysis over access paths)"
	acc := 0
	ens := w.readEntries()
	for _, en := range ens {
		m := w.memExec(en.fn, en.args, nil, "L#", nil)
		m.undecided(r, en)
		acc += m.e.nAccess
		ws := m.writes("R#", "G#")
		for _, ev := range ws {
			r.bad(en.name+" writes "+m.e.short(ev.acc.name), ev.site, "%s, a read operation, modifies %s at %s", en.name, m.e.short(ev.acc.name), ev.site)
		}
		if len(ws) == 0 {
			r.ok("read operation "+en.name, w.pos(en.fn.Pos()))
		}
	}
	r.floor("read_operations", len(ens), 34)
	r.floor("accesses", acc, 250)
	r.Assume = append(r.Assume, "standard library functions modify only what sort and slices sorting functions are given", "user components behave")
}

func checkC15(w *World, r *Report) {
	r.Rule = "no mutable object (slice, map, pointer) of the repository, an index, an analysis component or a package-level variable is reachable from a value a read operation returns (escape analysis over access paths)"
	n, vals := 0, 0
	for _, en := range w.readEntries() {
		m := w.memExec(en.fn, en.args, nil, "L#", nil)
		m.undecided(r, en)
		n++
		bad := false
		for _, o := range m.outs {
			for i, v := range o.res {
				vals++
				for obj, path := range m.reach(o.st, v, en.fn.Signature.Results().At(i).Type()) {
					if isShared(obj) {
						bad = true
						r.bad(en.name+" exposes "+m.e.short(obj), w.pos(en.fn.Pos()), "the value returned by %s gives access to %s through %s", en.name, m.e.short(obj), path)
					}
				}
			}
		}
		if !bad {
			r.ok("returned values of "+en.name, w.pos(en.fn.Pos()))
		}
	}
	r.floor("operations", n, 34)
	r.floor("returned_abstract_values", vals, 50)
}

func checkC16(w *World, r *Report) {
	r.Rule = "every mutable object reachable from a newly built repository or index is allocated by that very call (fresh per construction); no function of the package other than initialisation writes a package-level variable"
	fresh := func(name string, m *memRun, o lout, v lv, t types.Type, minObjs int) {
		if v.k != 'r' || !isLocal(o.st.canon(v.n)) {
			r.bad(name+" returns a fresh object", name, "%s returns %s, which is not allocated by the call", name, m.e.short(v.n))
			return
		}
		objs := m.reach(o.st, v, t)
		cnt := 0
		for obj, path := range objs {
			if strings.HasSuffix(obj, " (interface)") {
				continue // a component handed to the constructor by its caller
			}
			if isShared(obj) {
				r.bad(name+" shares "+m.e.short(obj), name, "what %s builds reaches %s through %s: it is not allocated per construction", name, m.e.short(obj), path)
			} else if isLocal(obj) {
				cnt++
			}
		}
		if cnt < minObjs {
			r.unknown(name+" components", name, "only %d fresh components were found, at least %d expected", cnt, minObjs)
		}
		r.ok("construction by "+name, name)
	}
	built := 0
	// constructors returning repositories and indexes
	indexI := w.mustType("Index").Underlying().(*types.Interface)
	bt := w.mustType("Builder")
	for _, mem := range w.SSA.Members {
		f, ok := mem.(*ssa.Function)
		if !ok || f.Object() == nil || !f.Object().Exported() || f.Blocks == nil || f.Signature.Recv() != nil {
			continue
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			isRepo := holdsMutex(deref(t), map[types.Type]bool{})
			isIndex := types.Implements(t, indexI) || types.Implements(types.NewPointer(deref(t)), indexI)
			if isRepo || isIndex {
				m := w.memExec(f, entryArgs(f, nil), nil, "L#", nil)
				for _, o := range m.outs {
					if o.res[i].dyn != nil {
						t = o.res[i].dyn
					}
					fresh(f.Name(), m, o, o.res[i], t, 2)
					built++
				}
			}
			if types.Identical(t, bt) || types.Identical(t.Underlying(), bt.Underlying()) {
				m := w.memExec(f, entryArgs(f, nil), nil, "R#", nil)
				for _, o := range m.outs {
					b := o.res[i]
					if b.k != 'f' {
						r.unknown("builder from "+f.Name(), w.pos(f.Pos()), "cannot tell which function %s returns", f.Name())
						continue
					}
					m2 := w.memExec(b.fn, entryArgs(b.fn, nil), b.b, "L#", o.st.clone())
					for _, o2 := range m2.outs {
						rt := b.fn.Signature.Results().At(0).Type()
						if o2.res[0].dyn != nil {
							rt = o2.res[0].dyn
						}
						fresh("the builder from "+f.Name(), m2, o2, o2.res[0], rt, 2)
						built++
					}
					for _, ev := range m2.writes("R#", "G#") {
						r.bad("builder from "+f.Name()+" writes "+m2.e.short(ev.acc.name), ev.site, "building an index modifies %s, which all indexes of the builder share", m2.e.short(ev.acc.name))
					}
				}
			}
		}
	}
	// package-level state
	nf := 0
	for _, f := range w.publicFuncs() {
		shared := map[int]string{}
		if f.Signature.Recv() != nil {
			shared[0] = "R#!recv"
		}
		m := w.memExec(f, entryArgs(f, shared), nil, "L#", nil)
		nf++
		bad := false
		for _, ev := range m.writes("G#") {
			bad = true
			r.bad("write of package variable "+m.e.short(ev.acc.name)+" in "+fnName(f), ev.site, "%s modifies package-level state %s", fnName(f), m.e.short(ev.acc.name))
		}
		if !bad {
			r.ok("no package-level write in "+fnName(f), w.pos(f.Pos()))
		}
	}
	r.floor("constructions", built, 3)
	r.floor("public_functions", nf, 50)
}

// publicFuncs lists the exported functions and the exported methods of the
// exported types.
func (w *World) publicFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, m := range w.SSA.Members {
		if f, ok := m.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() && f.Blocks != nil {
			r = append(r, f)
		}
	}
	for _, n := range w.namedTypes() {
		if n.Obj().Exported() && !types.IsInterface(n) {
			for _, f := range w.exportedMethods(n) {
				if f.Blocks != nil {
					r = append(r, f)
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return fnName(r[i]) < fnName(r[j]) })
	return r
}

func checkC28(w *World, r *Report) {
	r.Rule = "mod analysis of every tokenizer, filter and character predicate of the package: no write to the component, to the tokens it is given, or to package-level variables"
	strT, tokT := types.Typ[types.String], types.NewSlice(types.Typ[types.String])
	isComp := func(s *types.Signature) bool {
		if s.Params().Len() != 1 || s.Results().Len() != 1 {
			return false
		}
		p, q := s.Params().At(0).Type().Underlying(), s.Results().At(0).Type().Underlying()
		return types.Identical(q, tokT) && (types.Identical(p, strT) || types.Identical(p, tokT))
	}
	n := 0
	run := func(name string, f *ssa.Function, args, binds []lv) {
		n++
		m := w.memExec(f, args, binds, "L#", nil)
		m.undecided(r, entry{f, name, nil})
		ws := m.writes("R#", "G#")
		for _, ev := range ws {
			r.bad(name+" writes "+m.e.short(ev.acc.name), ev.site, "%s modifies %s at %s", name, m.e.short(ev.acc.name), ev.site)
		}
		if len(ws) == 0 {
			r.ok("analysis component "+name, w.pos(f.Pos()))
		}
	}
	for _, t := range w.namedTypes() {
		if types.IsInterface(t) {
			continue
		}
		ms := w.Prog.MethodSets.MethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			nm := ms.At(i).Obj().Name()
			if nm != "Tokenize" && nm != "Filter" {
				continue
			}
			f := w.Prog.MethodValue(ms.At(i))
			if f == nil || f.Blocks == nil || !isComp(f.Signature) {
				continue
			}
			run(t.Obj().Name()+"."+nm, f, entryArgs(f, map[int]string{0: "R#!component", 1: "R#!tokens"}), nil)
		}
	}
	// character predicates: function literals and functions func(rune) bool
	for _, f := range w.fns {
		s := f.Signature
		if s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 1 ||
			!types.Identical(s.Params().At(0).Type(), types.Typ[types.Int32]) && !types.Identical(s.Params().At(0).Type(), types.Universe.Lookup("rune").Type()) ||
			!types.Identical(s.Results().At(0).Type(), types.Typ[types.Bool]) {
			continue
		}
		var binds []lv
		for _, fv := range f.FreeVars {
			binds = append(binds, lv{k: 'r', n: "R#!captured " + fv.Name()})
		}
		run("predicate "+fnName(f), f, entryArgs(f, nil), binds)
	}
	// token-to-token function literals (filters written as closures)
	for _, f := range w.fns {
		if f.Parent() != nil && isComp(f.Signature) {
			var binds []lv
			for _, fv := range f.FreeVars {
				binds = append(binds, lv{k: 'r', n: "R#!captured " + fv.Name()})
			}
			run("function "+fnName(f), f, entryArgs(f, map[int]string{0: "R#!tokens"}), binds)
		}
	}
	r.floor("components", n, 7)
	_ = fmt.Sprint
}
