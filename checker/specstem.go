package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Contract of the stemming regions (C30).
//
// A word is a sequence of characters of which only is known whether each is a
// vowel; a character has an arbitrary number of bytes.

const spanishVowels = "aeiouáéíóúü"

var otherLetters = []rune{'b', 'ñ', 'ß', 'x', 'z', 'A', 'É', '-', '€', 'y', 'à'}

// longestWord bounds the words followed letter by letter.
const longestWord = 10

func init() {
	var vs []int
	for _, r := range spanishVowels {
		vs = append(vs, int(r))
		charSets["letter "+string(r)] = vRange{set: []int{int(r)}}
	}
	for _, r := range otherLetters {
		charSets["letter "+string(r)] = vRange{set: []int{int(r)}}
	}
	v, c := vRange{set: vs}, vRange{set: vs, neg: true}
	for i := 0; i <= longestWord; i++ {
		charSets[fmt.Sprintf("V%d", i)], charSets[fmt.Sprintf("C%d", i)] = v, c
	}
}

// regions gives the start of R1, R2 and RV of a word of vowels (V) and other
// letters (C), -1 if there is none.
func regions(p string) (r1, r2, rv int) {
	after := func(from int) int {
		if from < 0 {
			return -1
		}
		for i := from + 1; i < len(p); i++ {
			if p[i-1] == 'V' && p[i] == 'C' {
				return i + 1
			}
		}
		return -1
	}
	next := func(c byte) int {
		if i := strings.IndexByte(p[2:], c); i >= 0 {
			return i + 3
		}
		return -1
	}
	r1 = after(0)
	r2 = after(r1)
	switch {
	case len(p) < 3:
		rv = -1
	case p[1] == 'C':
		rv = next('V')
	case p[0] == 'V':
		rv = next('C')
	default:
		rv = 3
	}
	return
}

func checkC30(w *World, r *Report) {
	r.Rule = fmt.Sprintf("abstract interpretation of R1R2RV for every pattern of vowels and other letters up to %d, with characters of any number of bytes: the three regions are the suffixes the algorithm defines", longestWord)
	w.stemWords(r)
}

func (w *World) stemWords(r *Report) {
	fn := w.mustFunc("R1R2RV")
	pats := []string{""}
	for i := 0; i < len(pats); i++ {
		p := pats[i]
		if len(p) < longestWord {
			pats = append(pats, p+"V", p+"C")
		}
		w.scenario(r, fmt.Sprintf("R1R2RV {%q}", p), fn, func(s *scenario) { s.stemWord(w, fn, p) }, inMode("e", 0))
	}
}

func (s *scenario) stemWord(w *World, fn *ssa.Function, p string) {
	s.x.gload = w.constGlobal
	st := newState()
	var word []seg
	for i := range p {
		if !s.conc {
			word = append(word, seg{sym(fmt.Sprintf("%c%d", p[i], i)), s.fresh().addc(1)})
			continue
		}
		set := []rune(spanishVowels)
		if p[i] == 'C' {
			set = otherLetters
		}
		l := set[(s.pick()*5+i*len(p))%len(set)]
		word = append(word, seg{sym("letter " + string(l)), lc(utf8.RuneLen(l))})
	}
	names := []string{"R1", "R2", "RV"}
	r1, r2, rv := regions(p)
	for i, at := range []int{r1, r2, rv} {
		var suffix []seg
		if at >= 0 {
			suffix = word[at:]
		}
		st.keep(names[i], suffix)
	}
	s.regions(fn, st, names, word)
}

func (s *scenario) regions(fn *ssa.Function, st *state, names []string, word []seg) {
	for _, o := range s.run(fn, st, st.array(word...)) {
		t, ok := o.v.(vTuple)
		if !ok || len(t) != 3 {
			s.doubt("the results are not three regions")
			continue
		}
		for i, n := range names {
			got, ok := o.st.content(t[i])
			if !ok {
				s.doubt("the content of %s is unknown", n)
				continue
			}
			want := o.st.normWord(o.st.kept(n))
			if showWord(o.st, got) != showWord(o.st, want) {
				s.mismatchW(o.st, got, "%s is %s instead of %s", n, showWord(o.st, got), showWord(o.st, want))
			}
		}
	}
}

func showWord(st *state, w []seg) string {
	var b strings.Builder
	for _, g := range w {
		fmt.Fprintf(&b, "%s^%s ", nm(st.nv(g.v)), st.n(g.n))
	}
	return strings.TrimSpace(b.String())
}

// constGlobal is the value of a package variable that is set once, when the
// package starts, to constants, and only read afterwards.
func (w *World) constGlobal(x *interp, st *state, g *ssa.Global) V {
	if g.Pkg == nil || g.Object() == nil || g.Object().Exported() {
		return nil
	}
	var val ssa.Value
	for _, f := range append([]*ssa.Function{w.SSA.Func("init")}, w.fns...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						if in.Op != token.MUL || f.Name() != "init" && !onlyRead(in) {
							return nil
						}
					case *ssa.Store:
						if f.Name() != "init" || in.Addr != ssa.Value(g) || val != nil {
							return nil
						}
						val = in.Val
					default:
						return nil
					}
				}
			}
		}
	}
	switch v := val.(type) {
	case *ssa.Const:
		return constV(v)
	case *ssa.MakeMap:
		o := &obj{kind: 'm', typ: v.Type()}
		for _, ref := range *v.Referrers() {
			switch ref := ref.(type) {
			case *ssa.MapUpdate:
				k, ok := ref.Key.(*ssa.Const)
				if !ok || ref.Map != ssa.Value(v) {
					return nil
				}
				var val V
				switch e := ref.Value.(type) {
				case *ssa.Const:
					val = constV(e)
				default:
					if u, ok := e.Type().Underlying().(*types.Struct); !ok || u.NumFields() > 0 {
						return nil
					}
					val = zero(e.Type())
				}
				o.ents = append(o.ents, ment{k: constV(k), v: val, ok: true})
			case *ssa.Store:
				if ref.Addr != ssa.Value(g) {
					return nil
				}
			case *ssa.DebugRef:
			default:
				return nil
			}
		}
		return vMap{st.alloc(o)}
	case *ssa.Convert:
		c, ok := v.X.(*ssa.Const)
		if sl, isSlice := v.Type().Underlying().(*types.Slice); ok && isSlice && c.Value != nil && c.Value.Kind() == constant.String {
			t := constant.StringVal(c.Value)
			var word []seg
			if e := sl.Elem().Underlying().(*types.Basic); e.Kind() == types.Byte {
				for _, b := range []byte(t) {
					word = append(word, seg{vInt{lc(int(b))}, lc(1)})
				}
			} else {
				for _, r := range t {
					word = append(word, seg{vInt{lc(int(r))}, lc(1)})
				}
			}
			return st.array(word...)
		}
	case *ssa.Slice:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return nil
		}
		arr, ok := deref(a.Type()).Underlying().(*types.Array)
		if !ok {
			return nil
		}
		word := make([]seg, arr.Len())
		for i := range word {
			word[i] = seg{zero(arr.Elem()), lc(1)}
		}
		for _, ref := range *a.Referrers() {
			switch ref := ref.(type) {
			case *ssa.IndexAddr:
				i, ok := ref.Index.(*ssa.Const)
				if !ok || len(*ref.Referrers()) != 1 {
					return nil
				}
				s, ok := (*ref.Referrers())[0].(*ssa.Store)
				if !ok || s.Addr != ssa.Value(ref) {
					return nil
				}
				e, ok := s.Val.(*ssa.Const)
				if !ok {
					return nil
				}
				word[i.Int64()].v = constV(e)
			case *ssa.Slice, *ssa.DebugRef:
			default:
				return nil
			}
		}
		return st.array(word...)
	}
	return nil
}

// onlyRead: what is loaded is only looked into.
func onlyRead(v ssa.Value) bool {
	if _, ok := v.Type().Underlying().(*types.Basic); ok {
		return true
	}
	for _, ref := range *v.Referrers() {
		switch r := ref.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.IndexAddr:
			for _, l := range *r.Referrers() {
				if u, ok := l.(*ssa.UnOp); !ok || u.Op != token.MUL {
					return false
				}
			}
		case *ssa.Call:
			b, ok := r.Call.Value.(*ssa.Builtin)
			f := r.Call.StaticCallee()
			if !(ok && b.Name() == "len") && !(f != nil && fnPkg(f) != nil && fnPkg(f).Path() == "slices" && strings.HasPrefix(f.Name(), "Contains")) {
				return false
			}
		default:
			return false
		}
	}
	return true
}
