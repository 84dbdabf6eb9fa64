package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contract of the JSON form of results (C29).
//
// The writer is modelled by the sequence of what is written to it, constant
// text with holes for values, which is then parsed as a JSON text. The lexer
// is modelled by the protocol of its methods over an object whose keys are the
// declared ones, in any order, with any number of unknown ones in between.

const easyjsonPath = "github.com/mailru/easyjson"

var (
	clsKey  = class("key")
	symJSON = sym("json")
)

// fieldTag is an exported field with its declared name.
type fieldTag struct {
	index int
	key   string
	typ   types.Type
	opt   bool
}

func tagsOf(t types.Type) (out []fieldTag) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if !f.Exported() {
			continue
		}
		parts := strings.Split(reflect.StructTag(u.Tag(i)).Get("json"), ",")
		key := parts[0]
		if key == "-" && len(parts) == 1 {
			continue
		}
		if key == "" {
			key = f.Name()
		}
		o := fieldTag{index: i, key: key, typ: f.Type()}
		for _, p := range parts[1:] {
			switch p {
			case "omitempty", "omitzero":
				o.opt = true
			default:
				undec("the declared form of field %s is not understood", f.Name())
			}
		}
		out = append(out, o)
	}
	return
}

// fill makes a value of t with an arbitrary value in each field.
func (s *scenario) fill(st *state, t types.Type, path string) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := zero(t).(vStruct)
		for i := 0; i < u.NumFields(); i++ {
			v.f[i] = s.fill(st, u.Field(i).Type(), path+"."+u.Field(i).Name())
		}
		return v
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			n := vInt{s.fresh().mul(1<<33 + 11).sub(s.fresh())} // any number
			st.ghost["int "+path] = n
			return n
		}
		if u.Info()&types.IsString != 0 {
			return sym("text" + path)
		}
	}
	undec("a field of type %s", t)
	return nil
}

func (s *scenario) filled(st *state, t types.Type, path string) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := zero(t).(vStruct)
		for i := 0; i < u.NumFields(); i++ {
			v.f[i] = s.filled(st, u.Field(i).Type(), path+"."+u.Field(i).Name())
		}
		return v
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return st.ghost["int "+path]
		}
	}
	return sym("text" + path)
}

// encoding ---------------------------------------------------------------------

type jsonNode struct {
	obj  map[string]*jsonNode
	kind string // "int", "str"
	v    V
}

type piece struct {
	c    byte
	kind string
	v    V
}

func (s *scenario) writerHook(x *interp, st *state, c *callInfo) ([]res, bool) {
	if c.kind != "static" || fnPkg(c.fn) == nil || !strings.HasPrefix(fnPkg(c.fn).Path(), easyjsonPath) {
		return nil, false
	}
	m := c.fn.Name()
	switch {
	case m == "BuildBytes" && c.sig.Results().Len() == 1:
		return one(st, symJSON), true
	case m == "BuildBytes" && c.sig.Results().Len() == 2:
		return one(st, vTuple{symJSON, vNil{}}), true
	case fnPkg(c.fn).Name() != "jwriter" || len(c.args) != 2:
	case m == "RawByte":
		if b, ok := c.args[1].(vInt); ok && st.n(b.l).isConst() {
			st.event(app("raw", vStr(string([]byte{byte(st.n(b.l).C)}))))
			return one(st, nil), true
		}
	case m == "RawString":
		if t, ok := c.args[1].(vStr); ok {
			st.event(app("raw", t))
		} else {
			st.event(app("unquoted text", c.args[1]))
		}
		return one(st, nil), true
	case m == "String":
		st.event(app("str", c.args[1]))
		return one(st, nil), true
	case strings.HasPrefix(m, "Int") || strings.HasPrefix(m, "Uint"):
		kind := "int"
		if strings.HasSuffix(m, "Str") {
			kind = "str"
		}
		st.event(app(kind, c.args[1]))
		return one(st, nil), true
	}
	undec("the writer's %s is not understood here", m)
	return nil, true
}

// written is the text written, with holes.
func written(st *state) (out []piece) {
	for _, g := range st.events() {
		n := st.n(g.n)
		t, ok := g.v.(vTerm)
		if !ok || !n.isConst() || len(t.args) != 1 {
			undec("what is written is not tracked")
		}
		for i := 0; i < n.C; i++ {
			if t.op == "raw" {
				for _, b := range []byte(string(t.args[0].(vStr))) {
					out = append(out, piece{c: b})
				}
			} else {
				out = append(out, piece{kind: t.op, v: t.args[0]})
			}
		}
	}
	return
}

type jsonError string

// parseJSON reads the text; panics with a jsonError.
func parseJSON(p []piece) *jsonNode {
	i := 0
	show := func() string {
		var b strings.Builder
		for j, q := range p {
			if j == i {
				b.WriteString(" <here> ")
			}
			if q.kind != "" {
				b.WriteString("<" + q.kind + ">")
			} else {
				b.WriteByte(q.c)
			}
		}
		return b.String()
	}
	bad := func(f string, a ...any) { panic(jsonError(fmt.Sprintf(f, a...) + ": " + show())) }
	skip := func() {
		for i < len(p) && p[i].kind == "" && strings.IndexByte(" \t\r\n", p[i].c) >= 0 {
			i++
		}
	}
	is := func(c byte) bool { skip(); return i < len(p) && p[i].kind == "" && p[i].c == c }
	want := func(c byte) {
		if !is(c) {
			bad("%q is missing", c)
		}
		i++
	}
	text := func() string {
		want('"')
		var b strings.Builder
		for !(i < len(p) && p[i].kind == "" && p[i].c == '"') {
			if i >= len(p) || p[i].kind != "" {
				bad("a constant text does not end")
			}
			if p[i].c == '\\' {
				undec("a text with an escape")
			}
			b.WriteByte(p[i].c)
			i++
		}
		i++
		return b.String()
	}
	var value func() *jsonNode
	value = func() *jsonNode {
		skip()
		if i >= len(p) {
			bad("a value is missing")
		}
		if p[i].kind != "" {
			i++
			return &jsonNode{kind: p[i-1].kind, v: p[i-1].v}
		}
		switch {
		case is('{'):
			i++
			n := &jsonNode{obj: map[string]*jsonNode{}}
			for first := true; !is('}'); first = false {
				if !first {
					want(',')
				}
				k := text()
				if n.obj[k] != nil {
					bad("the key %q occurs twice", k)
				}
				want(':')
				n.obj[k] = value()
			}
			i++
			return n
		case is('"'):
			return &jsonNode{kind: "str", v: vStr(text())}
		}
		var b []byte
		for i < len(p) && p[i].kind == "" && strings.IndexByte("-0123456789truefalsn", p[i].c) >= 0 {
			b = append(b, p[i].c)
			i++
		}
		if len(b) == 0 {
			bad("a value is missing")
		}
		return &jsonNode{kind: string(b), v: vNil{}}
	}
	v := value()
	skip()
	if i < len(p) {
		bad("there is more after the value")
	}
	return v
}

func (s *scenario) sameJSON(st *state, n *jsonNode, t types.Type, v V, path string) {
	tags := tagsOf(t)
	if _, isStruct := t.Underlying().(*types.Struct); isStruct {
		if n.obj == nil {
			s.fail(st, "%s is not written as an object", path)
			return
		}
		var keys []string
		for k := range n.obj {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, f := range tags {
			c := n.obj[f.key]
			if c == nil {
				if !f.opt {
					s.fail(st, "the key %q of %s is not written (keys %q)", f.key, path, keys)
				}
				continue
			}
			s.sameJSON(st, c, f.typ, getField(v, f.index), path+"."+f.key)
		}
		if len(n.obj) > len(tags) {
			s.fail(st, "%s is written with the keys %q, but %d fields are declared", path, keys, len(tags))
		}
		return
	}
	kind := "str"
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		kind = "int"
	}
	if n.kind != kind {
		s.fail(st, "%s is written as %s instead of %s", path, n.kind, kind)
		return
	}
	s.expect(st, n.v, v, "%s", path)
}

// decoding ---------------------------------------------------------------------

type jsonReader struct {
	*scenario
	words map[string][]string // path: order of the declared keys
	types map[string]types.Type
}

// load puts the keys of the object at a path in front of the lexer: how many
// declared ones were read and how many unknown ones are left in front of the
// next.
func (jr *jsonReader) load(st *state, path string) {
	st.ghost["read"+path] = vStr("0")
	st.ghost["left"+path] = vInt{jr.fresh()}
	st.ghost["path"] = vStr(path)
	st.ghost["phase"] = vStr("key")
}

func (jr *jsonReader) hook(x *interp, st *state, c *callInfo) ([]res, bool) {
	if c.kind != "static" || fnPkg(c.fn) == nil || !strings.HasPrefix(fnPkg(c.fn).Path(), easyjsonPath) {
		return nil, false
	}
	if fnPkg(c.fn).Name() != "jlexer" {
		undec("%s is not understood here", c.fn.Name())
	}
	path, phase := string(st.ghost["path"].(vStr)), string(st.ghost["phase"].(vStr))
	m := c.fn.Name()
	set := func(p string) { st.ghost["phase"] = vStr(p) }
	wrong := func(f string, a ...any) ([]res, bool) {
		jr.fail(st, "decoding: "+f, a...)
		return nil, true
	}
	cur := func() (V, types.Type, string) {
		k := st.ghost["cur"]
		if t, ok := k.(vStr); ok {
			p := path + "." + string(t)
			return k, jr.types[p], p
		}
		return k, nil, ""
	}
	value := func() bool { return phase == "value" || phase == "null" || phase == "start" }
	delim := func() (byte, bool) {
		if len(c.args) != 2 {
			return 0, false
		}
		d, ok := c.args[1].(vInt)
		if !ok || !st.n(d.l).isConst() {
			undec("an unknown delimiter")
		}
		return byte(st.n(d.l).C), true
	}
	// keysLeft splits by whether an unknown key is next
	done := 0
	if phase == "key" {
		done, _ = strconv.Atoi(string(st.ghost["read"+path].(vStr)))
	}
	last := done == len(jr.words[path])
	other := func() (yes, no []*state) {
		l := st.n(st.ghost["left"+path].(vInt).l)
		yes, no = st.less(Lin{}, l)
		return
	}
	atEnd := func() (more, end []*state) {
		if !last {
			return []*state{st}, nil
		}
		return other()
	}
	switch m {
	case "IsStart":
		return one(st, vBool(phase == "start")), true
	case "Ok":
		return one(st, vBool(true)), true
	case "Error":
		return one(st, vNil{}), true
	case "GetNonFatalErrors":
		return one(st, vNil{}), true
	case "IsNull":
		if phase == "value" {
			if _, t, _ := cur(); t == nil {
				no := st.clone()
				st.ghost["phase"] = vStr("null")
				return []res{{st: st, v: vBool(true)}, {st: no, v: vBool(false)}}, true
			}
		}
		return one(st, vBool(phase == "null")), true
	case "Null":
		if phase != "null" {
			return wrong("a value is taken for null")
		}
		set("comma")
		return one(st, nil), true
	case "Skip":
		switch phase {
		case "null":
		case "value":
			if _, t, p := cur(); t != nil {
				return wrong("the value of %q is skipped", p)
			}
			return wrong("an unknown value is skipped without what it contains")
		default:
			return wrong("a %s is skipped", phase)
		}
		set("comma")
		return one(st, nil), true
	case "SkipRecursive":
		if !value() {
			return wrong("a %s is skipped", phase)
		}
		if _, t, p := cur(); phase == "value" && t != nil {
			return wrong("the value of %q is skipped", p)
		}
		set("comma")
		return one(st, nil), true
	case "Delim":
		d, ok := delim()
		switch {
		case ok && d == '{' && phase == "start":
			jr.load(st, "")
			return one(st, nil), true
		case ok && d == '{' && phase == "value":
			_, t, p := cur()
			if t == nil {
				return wrong("the value of an unknown key is read")
			}
			if _, isStruct := t.Underlying().(*types.Struct); !isStruct {
				return wrong("%s is read as an object", p)
			}
			jr.load(st, p)
			return one(st, nil), true
		case ok && d == '}' && phase == "key":
			more, end := atEnd()
			if len(more) > 0 {
				return wrong("an object ends before all its keys are read")
			}
			var out []res
			for _, e := range end {
				e = e.clone()
				delete(e.ghost, "read"+path)
				delete(e.ghost, "left"+path)
				if i := strings.LastIndexByte(path, '.'); i >= 0 {
					e.ghost["path"] = vStr(path[:i])
					e.ghost["cur"] = vStr(path[i+1:])
					e.ghost["phase"] = vStr("comma")
				} else {
					e.ghost["phase"] = vStr("done")
				}
				out = append(out, res{st: e})
			}
			return out, true
		}
		return wrong("%q is expected in place of a %s", d, phase)
	case "IsDelim":
		d, ok := delim()
		if !ok {
			break
		}
		switch {
		case phase != "key" && phase != "start" && phase != "value" && phase != "null":
			return wrong("%q is looked for in place of a %s", d, phase)
		case d == '{':
			_, t, _ := cur()
			if phase == "value" && t == nil {
				undec("unknown values are looked at")
			}
			isS := false
			if phase == "value" {
				_, isS = t.Underlying().(*types.Struct)
			}
			return one(st, vBool(phase == "start" || isS)), true
		case d == '}' && phase == "key":
			more, end := atEnd()
			var out []res
			for _, e := range end {
				out = append(out, res{st: e.clone(), v: vBool(true)})
			}
			for _, e := range more {
				out = append(out, res{st: e.clone(), v: vBool(false)})
			}
			return out, true
		}
		return one(st, vBool(false)), true
	case "UnsafeFieldName", "UnsafeString", "String", "StringIntern":
		if phase == "key" {
			var out []res
			yes, no := other()
			for _, n := range yes {
				n = n.clone()
				n.ghost["left"+path] = vInt{n.n(n.ghost["left"+path].(vInt).l.addc(-1))}
				n.ghost["phase"], n.ghost["cur"] = vStr("colon"), clsKey
				out = append(out, res{st: n, v: clsKey})
			}
			for _, n := range no {
				if last {
					jr.fail(n, "decoding: a key is read after the last one")
					continue
				}
				n = n.clone()
				k := vStr(jr.words[path][done])
				n.ghost["read"+path] = vStr(strconv.Itoa(done + 1))
				n.ghost["left"+path] = vInt{jr.fresh()}
				n.ghost["phase"], n.ghost["cur"] = vStr("colon"), k
				out = append(out, res{st: n, v: k})
			}
			return out, true
		}
		if phase != "value" || m == "UnsafeFieldName" {
			return wrong("a text is read in place of a %s", phase)
		}
		_, t, p := cur()
		if t == nil {
			return wrong("the value of an unknown key is read")
		}
		if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			return wrong("%s is read as a text", p)
		}
		set("comma")
		if m == "UnsafeString" {
			return one(st, app("shared bytes", sym("text"+jr.fieldPath(p)))), true
		}
		return one(st, sym("text"+jr.fieldPath(p))), true
	case "WantColon":
		if phase != "colon" {
			return wrong("a colon is expected in place of a %s", phase)
		}
		set("value")
		return one(st, nil), true
	case "WantComma":
		if phase != "comma" {
			return wrong("a comma is expected in place of a %s", phase)
		}
		set("key")
		delete(st.ghost, "cur")
		return one(st, nil), true
	case "Consumed":
		if phase != "done" {
			return wrong("the text is expected to end, but a %s follows", phase)
		}
		return one(st, nil), true
	case "Int", "Int64", "Int32", "Int16", "Int8", "Uint", "Uint64", "Uint32", "Uint16", "Uint8":
		_, t, p := cur()
		if phase != "value" {
			return wrong("a number is read in place of a %s", phase)
		}
		if t == nil {
			return wrong("the value of an unknown key is read")
		}
		if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return wrong("%s is read as a number", p)
		}
		if m != "Int" && m != "Int64" {
			return wrong("%s is read with %s, which not every number fits", p, m)
		}
		set("comma")
		return one(st, st.ghost["int "+jr.fieldPath(p)]), true
	}
	undec("the lexer's %s is not understood here", m)
	return nil, true
}

// fieldPath turns a path of keys into one of fields.
func (jr *jsonReader) fieldPath(p string) string {
	t := jr.types[""]
	out := ""
	for _, k := range strings.Split(p, ".")[1:] {
		for _, f := range tagsOf(t) {
			if f.key == k {
				out += "." + t.Underlying().(*types.Struct).Field(f.index).Name()
				t = f.typ
				break
			}
		}
	}
	return out
}

func (jr *jsonReader) paths(t types.Type, path string, out map[string]types.Type) {
	out[path] = t
	for _, f := range tagsOf(t) {
		jr.paths(f.typ, path+"."+f.key, out)
	}
}

// orders are the orders of the keys of every object.
func orders(ts map[string]types.Type) []map[string][]string {
	out := []map[string][]string{{}}
	var ps []string
	for p := range ts {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		var ks []string
		for _, f := range tagsOf(ts[p]) {
			ks = append(ks, f.key)
		}
		if len(ks) == 0 {
			continue
		}
		rev := append([]string{}, ks...)
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		var nx []map[string][]string
		for _, o := range out {
			for _, w := range [][]string{ks, rev} {
				c := map[string][]string{p: w}
				for k, v := range o {
					c[k] = v
				}
				nx = append(nx, c)
			}
		}
		out = nx
	}
	return out
}

func checkC29(w *World, r *Report) {
	r.Rule = "abstract interpretation of encoder and decoder: what is written, parsed as JSON with holes, has every declared key with the value of its field; the decoder follows the lexer's protocol over the declared keys in any order among any number of unknown ones and stores each in its field"
	t := w.mustType("SearchResult")
	for _, name := range []string{"MarshalJSON", "MarshalEasyJSON"} {
		fn := w.method(t, name)
		if fn == nil {
			r.unknown(name, "-", "the method does not exist")
			continue
		}
		w.scenario(r, name, fn, func(s *scenario) {
			s.x.hook = s.writerHook
			st := newState()
			args := []V{s.fill(st, t, "")}
			if name == "MarshalEasyJSON" {
				args = append(args, sym("writer"))
			}
			for _, o := range s.run(fn, st, args...) {
				s.written(o, name, t)
			}
		})
	}
	for _, name := range []string{"UnmarshalJSON", "UnmarshalEasyJSON"} {
		fn := w.method(types.NewPointer(t), name)
		if fn == nil {
			r.unknown(name, "-", "the method does not exist")
			continue
		}
		ts := map[string]types.Type{}
		func() {
			defer func() { _ = recover() }()
			(*jsonReader)(nil).paths(t, "", ts)
		}()
		for _, o := range orders(ts) {
			w.scenario(r, fmt.Sprintf("%s {%v}", name, o), fn, func(s *scenario) { s.read(w, fn, t, ts, o) })
		}
	}
}

func (s *scenario) written(o res, name string, t types.Type) {
	defer func() {
		if e := recover(); e != nil {
			if j, ok := e.(jsonError); ok {
				s.fail(o.st, "what is written is no JSON text, %s", string(j))
				return
			}
			panic(e)
		}
	}()
	if name == "MarshalJSON" {
		v, ok := o.v.(vTuple)
		if !ok || len(v) != 2 || nm(v[0]) != nm(symJSON) {
			s.doubt("the text returned is not the one written")
			return
		}
		if !isNil(v[1]) {
			s.mismatch(o.st, v[1], "returns the error %s", show(v[1]))
		}
	}
	s.sameJSON(o.st, parseJSON(written(o.st)), t, s.filled(o.st, t, ""), "result")
}

func (s *scenario) read(w *World, fn *ssa.Function, t types.Type, ts map[string]types.Type, order map[string][]string) {
	jr := &jsonReader{scenario: s, words: order, types: ts}
	s.x.hook = jr.hook
	s.x.known = map[string]bool{}
	for _, t := range ts {
		for _, f := range tagsOf(t) {
			s.x.known[f.key] = true
		}
	}
	st := newState()
	s.fill(st, t, "")
	old := s.oldValue(t)
	id := st.alloc(&obj{kind: 'c', v: old})
	p := vPtr{obj: id}
	st.ghost["target"] = p
	st.ghost["path"], st.ghost["phase"] = vStr(""), vStr("start")
	for _, o := range s.run(fn, st, p, sym("data")) {
		if o.v != nil && !isNil(o.v) {
			s.mismatch(o.st, o.v, "decoding returns %s", show(o.v))
			continue
		}
		if ph := o.st.ghost["phase"]; nm(ph) != nm(vStr("done")) {
			s.fail(o.st, "decoding ends in front of a %s", string(ph.(vStr)))
			continue
		}
		s.sameFields(o.st, t, o.st.at(o.st.ghost["target"].(vPtr)), s.filled(o.st, t, ""), "the decoded result")
	}
}

func (s *scenario) oldValue(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := zero(t).(vStruct)
		for i := 0; i < u.NumFields(); i++ {
			v.f[i] = s.oldValue(u.Field(i).Type())
		}
		return v
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return vInt{s.fresh()}
		}
	}
	return sym("old")
}

func (s *scenario) sameFields(st *state, t types.Type, got, want V, path string) {
	tags := tagsOf(t)
	if len(tags) == 0 {
		s.expect(st, got, want, "%s", path)
		return
	}
	for _, f := range tags {
		s.sameFields(st, f.typ, getField(got, f.index), getField(want, f.index), path+"."+f.key)
	}
}
