R = "repos_repo.go"
PRE = '''
func demoRepo() *IndexRepo {
	return NewIndexRepo(NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer()))
}

func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatalf("%s does not return", what)
	}
}
'''
W = ("time",)
seed("b01-alias-early-return", "C01", [(R, """				exists = true
				break
""", """				h.aliasesMu.Unlock()
				return false
""")], PRE + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "one"))
	r.Alias("x", "a")
	r.Alias("x", "a")
	within(t, "put after a repeated alias", func() { r.Put("b", NewDocRequest("2", "two")) })
}
''', "aliasing an index to an alias it is already a target of, followed by any writing operation", "Alias returns with the index table still read-locked", imports=W)
seed("b02-alias-lock-order", "C02", [(R, """	h.indicesMu.RLock()
	if _, ok := h.indices[index]; !ok {
		h.indicesMu.RUnlock()
		return false
	}
	// 2. Index exists, apply alias
	h.aliasesMu.Lock()
	indices, ok := h.aliases[alias]
""", """	h.aliasesMu.Lock()
	h.indicesMu.RLock()
	if _, ok := h.indices[index]; !ok {
		h.indicesMu.RUnlock()
		h.aliasesMu.Unlock()
		return false
	}
	// 2. Index exists, apply alias
	indices, ok := h.aliases[alias]
""")], PRE + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "one"))
	within(t, "concurrent alias and put", func() {
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < 100000; i++ {
				r.Alias("x", "a")
				r.UnAlias("x", "")
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 100000; i++ {
				r.Rename("a", "a")
			}
		}()
		wg.Wait()
	})
}
''', "an Alias and a Rename/Drop/Put of another goroutine interleaving between their two lock acquisitions", "Alias takes the two locks in the opposite order: deadlock", imports=W + ("sync",))
seed("b03-listaliases-size-outside-lock", "C03", [(R, """	h.aliasesMu.RLock()
	aliases := make([]AliasesResultRow, len(h.aliases))
""", """	aliases := make([]AliasesResultRow, len(h.aliases))
	h.aliasesMu.RLock()
""")], PRE + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "one"))
	within(t, "listing", func() {
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				r.Alias(strconv.Itoa(i%50), "a")
				r.UnAlias(strconv.Itoa((i+25)%50), "")
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				r.ListAliases()
			}
		}()
		wg.Wait()
	})
}
''', "an alias listing concurrent with Alias or UnAlias", "the alias table is read without its lock", race=True, imports=W + ("sync", "strconv"))
seed("b04-alias-check-then-act", "C04", [(R, """	// 2. Index exists, apply alias
	h.aliasesMu.Lock()
""", """	h.indicesMu.RUnlock()
	// 2. Index exists, apply alias
	h.aliasesMu.Lock()
"""), (R, """	h.aliasesMu.Unlock()
	h.indicesMu.RUnlock()
	return added
""", """	h.aliasesMu.Unlock()
	return added
""")], PRE + '''
func TestDemo(t *testing.T) {
	within(t, "alias and drop", func() {
		for i := 0; i < 60000; i++ {
			r := demoRepo()
			r.Put("a", NewDocRequest("1", "one"))
			var wg sync.WaitGroup
			wg.Add(2)
			go func() { defer wg.Done(); r.Alias("x", "a") }()
			go func() { defer wg.Done(); r.Drop("a") }()
			wg.Wait()
			if !r.Has("a") && r.HasAlias("x") {
				t.Errorf("round %d: an alias of a dropped index", i)
				return
			}
		}
	})
}
''', "a Drop of the index between Alias's existence check and its insertion", "Alias decides and acts in two separate critical sections", imports=W + ("sync",))
seed("b05-wg-capped", "C05", [(R, """	wg.Add(len(indices))
	for _, in := range indices {
""", """	// one slot per worker
	workers := len(indices)
	if workers > 4 {
		workers = 4
	}
	wg.Add(workers)
	for _, in := range indices {
""")], PRE + '''
type demoSlow struct{ n *atomic.Int64 }

func (d demoSlow) Put(DocRequest) Index {
	time.Sleep(time.Millisecond)
	d.n.Add(1)
	return d
}
func (d demoSlow) Search(string, Engine) slices.Slice[SearchResult] { return nil }

func TestDemo(t *testing.T) {
	var n atomic.Int64
	r := NewIndexRepo(func(string) Index { return demoSlow{&n} })
	for i := 0; i < 8; i++ {
		r.Put(strconv.Itoa(i), NewDocRequest("1", "one"))
		r.Alias("x", strconv.Itoa(i))
	}
	for i := 0; i < 200; i++ {
		before := n.Load()
		r.Put("x", NewDocRequest("1", "one"))
		if got := n.Load() - before; got != 8 {
			t.Fatalf("put returned after %d of 8 indexes", got)
		}
	}
}
''', "an alias with more than four targets", "the wait group counts fewer workers than are started: put returns early or panics", imports=W + ("sync/atomic", "strconv", "github.com/sonirico/vago/slices"))
seed("b33-done-before-put", "C05", [(R, """			index.Put(doc)
			wg.Done()
""", """			if len(doc.Raw()) > maxInline {
				// big documents must not hold up the caller
				wg.Done()
				index.Put(doc)
				return
			}
			index.Put(doc)
			wg.Done()
"""), (R, """func (h *IndexRepo) Put(indexName""", """// maxInline is the size from which a document is indexed in the background.
const maxInline = 1 << 16

func (h *IndexRepo) Put(indexName""")], PRE + '''
type demoSlow struct{ n *atomic.Int64 }

func (d demoSlow) Put(DocRequest) Index {
	time.Sleep(time.Millisecond)
	d.n.Add(1)
	return d
}
func (d demoSlow) Search(string, Engine) slices.Slice[SearchResult] { return nil }

func TestDemo(t *testing.T) {
	var n atomic.Int64
	r := NewIndexRepo(func(string) Index { return demoSlow{&n} })
	for i := 0; i < 2; i++ {
		r.Put(strconv.Itoa(i), NewDocRequest("1", "one"))
		r.Alias("x", strconv.Itoa(i))
	}
	for i := 0; i < 200; i++ {
		before := n.Load()
		r.Put("x", NewDocRequest("1", strings.Repeat("x", 1<<17)))
		if got := n.Load() - before; got != 2 {
			t.Fatalf("put returned after %d of 2 indexes", got)
		}
	}
}
''', "a put of a document of more than 64 KiB through an alias of several indexes whose work outlasts the wait", "for a big document each worker reports completion before it has put it: put returns while the work goes on without the lock", imports=W + ("strings", "sync/atomic", "strconv", "github.com/sonirico/vago/slices"))
seed("b06-search-explicit-unlock", "C06", [(R, """	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()

	// Get indices while holding the lock
""", """	h.indicesMu.RLock()

	// Get indices while holding the lock
"""), (R, """			h.aliasesMu.RUnlock()
			return nil, fmt.Errorf""", """			h.aliasesMu.RUnlock()
			h.indicesMu.RUnlock()
			return nil, fmt.Errorf"""), (R, """		sr := indices[0].Search(terms, engine)
""", """		sr := indices[0].Search(terms, engine)
		h.indicesMu.RUnlock()
"""), (R, """	wg.Wait()
	for _, sr := range partials {
""", """	wg.Wait()
	h.indicesMu.RUnlock()
	for _, sr := range partials {
""")], PRE + '''
func TestDemo(t *testing.T) {
	r := demoRepo()
	r.Put("a", NewDocRequest("1", "one"))
	func() {
		defer func() { recover() }()
		r.Search("a", "one", func([]string, Indexer) slices.Slice[SearchResult] { panic("engine") })
	}()
	within(t, "put after a panicking search", func() { r.Put("a", NewDocRequest("2", "two")) })
}
''', "a search engine that panics, with the caller recovering", "Search keeps the index table read-locked after a panic", imports=W + ("github.com/sonirico/vago/slices",))
seed("b07-alias-last-target-only", "C07", [(R, """		for _, ri := range indices {
			if ri == index {
				exists = true
				break
			}
		}
""", """		// targets are appended, so a repeated request shows up at the end
		if n := len(indices); n > 0 && indices[n-1] == index {
			exists = true
		}
""")], '''
func TestDemo(t *testing.T) {
	r := NewIndexRepo(NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer()))
	r.Put("a", NewDocRequest("1", "one"))
	r.Put("b", NewDocRequest("2", "two"))
	r.Alias("x", "a")
	r.Alias("x", "b")
	r.Alias("x", "a")
	if got := r.ListAliases().Aliases[0].Indices; len(got) != 2 {
		t.Fatalf("targets %v", got)
	}
}
''', "aliasing an index that is a target already but not the most recent one", "an alias lists a target twice")
seed("b08-put-alias-first", "C08", [(R, """	in, ok := h.indices[name]
	if ok {
		return []Index{in}, true
	}
	// 2. If not found, search on aliases
	h.aliasesMu.RLock()
	aliasedIndices, ok := h.aliases[name]
	if !ok {
		h.aliasesMu.RUnlock()
		return nil, false
	}
""", """	in, found := h.indices[name]
	// 2. If not found, search on aliases
	h.aliasesMu.RLock()
	aliasedIndices, ok := h.aliases[name]
	if !ok {
		h.aliasesMu.RUnlock()
		if found {
			return []Index{in}, true
		}
		return nil, false
	}
""")], '''
func TestDemo(t *testing.T) {
	r := NewIndexRepo(NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer()))
	r.Put("a", NewDocRequest("1", "one"))
	r.Put("b", NewDocRequest("2", "two"))
	r.Alias("a", "b")
	r.Put("a", NewDocRequest("3", "three"))
	s, err := r.Search("a", "three", LinearSearch)
	if err != nil || !s.Next() {
		t.Fatal("the document put under the name of an index is not in it")
	}
}
''', "an alias with the same name as an existing index", "puts resolve the name as an alias first, so the document lands in other indexes")
seed("b09-search-skips-shadowed", "C09", [(R, """		indices = make([]Index, len(aliasedIndices))
		for i, index := range aliasedIndices {
			indices[i] = h.indices[index]
		}
""", """		for _, index := range aliasedIndices {
			// a target that is an alias itself is reached through that alias
			if _, nested := h.aliases[index]; !nested {
				indices = append(indices, h.indices[index])
			}
		}
""")], '''
func TestDemo(t *testing.T) {
	r := NewIndexRepo(NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer()))
	r.Put("a", NewDocRequest("1", "one"))
	r.Put("b", NewDocRequest("2", "one"))
	r.Alias("x", "a")
	r.Alias("x", "b")
	r.Alias("b", "a")
	s, err := r.Search("x", "one", LinearSearch)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for s.Next() {
		n++
	}
	if n != 2 {
		t.Fatalf("%d results", n)
	}
}
''', "an alias target that shares its name with another alias", "a search through an alias leaves out such a target")
seed("b10-drop-first-alias-only", "C10", [(R, """		if len(newIndices) < 1 {
			delete(h.aliases, alias)
		} else if len(newIndices) != len(indices) {
			h.aliases[alias] = newIndices
		}
	}
	// Actually""", """		if len(newIndices) < 1 {
			delete(h.aliases, alias)
		} else if len(newIndices) != len(indices) {
			h.aliases[alias] = newIndices
			break
		}
	}
	// Actually""")], '''
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		r := NewIndexRepo(NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer()))
		r.Put("a", NewDocRequest("1", "one"))
		r.Put("b", NewDocRequest("2", "one"))
		for _, x := range []string{"x", "y"} {
			r.Alias(x, "a")
			r.Alias(x, "b")
		}
		r.Drop("a")
		for _, row := range r.ListAliases().Aliases {
			if len(row.Indices) != 1 {
				t.Fatalf("%v", row)
			}
		}
	}
}
''', "the dropped index being a target of two aliases that have other targets too", "the second alias keeps a dangling target")
seed("b11-rename-same-name", "C11", [(R, """	index, ok := h.indices[old]
	if !ok {
""", """	index, ok := h.indices[old]
	if !ok || old == new {
""")], '''
func TestDemo(t *testing.T) {
	r := NewIndexRepo(NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer()))
	r.Put("a", NewDocRequest("1", "one"))
	if !r.Rename("a", "a") {
		t.Fatal("renaming an existing index reports failure")
	}
}
''', "renaming an index to its own name", "Rename reports failure for an existing index")
seed("b12-unalias-casefold", "C12", [(R, """	var newIndices []string
	for _, aliasedIndexName := range indices {
		if aliasedIndexName != index {
			newIndices = append(newIndices, aliasedIndexName)
		}
	}
	if len(newIndices) < 1 {
		delete(h.aliases, alias)
	} else if len(newIndices) != len(indices) {
		h.aliases[alias] = newIndices
	}
	return true
}
""", """	var newIndices []string
	for _, aliasedIndexName := range indices {
		if !strings.EqualFold(aliasedIndexName, index) {
			newIndices = append(newIndices, aliasedIndexName)
		}
	}
	if len(newIndices) < 1 {
		delete(h.aliases, alias)
	} else if len(newIndices) != len(indices) {
		h.aliases[alias] = newIndices
	}
	return true
}
"""), (R, """	"fmt"
	"sync"
""", """	"fmt"
	"strings"
	"sync"
""")], '''
func TestDemo(t *testing.T) {
	r := NewIndexRepo(NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer()))
	r.Put("a", NewDocRequest("1", "one"))
	r.Put("A", NewDocRequest("2", "one"))
	r.Alias("x", "a")
	r.Alias("x", "A")
	r.UnAlias("x", "a")
	if !r.HasAlias("x") {
		t.Fatal("a target that was not named is gone")
	}
}
''', "two indexes under one alias whose names differ only in case", "UnAlias detaches both")
seed("b13-list-skips-empty", "C13", [(R, """	for iname := range h.indices {
		indices[i] = iname
		i++
	}
""", """	for iname := range h.indices {
		if len(iname) == 0 {
			continue
		}
		indices[i] = iname
		i++
	}
	indices = indices[:i]
""")], '''
func TestDemo(t *testing.T) {
	r := NewIndexRepo(NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer()))
	r.Put("", NewDocRequest("1", "one"))
	if !r.Has("") || len(r.List()) != 1 {
		t.Fatalf("%q", r.List())
	}
}
''', "an index whose name is the empty string", "the listing leaves out an existing index")
seed("b14-inplace-intersection", "C14", [("search_linear_search.go", """	maxLen := len(a)
	if len(b) > maxLen {
		maxLen = len(b)
	}
	r := make([]int, 0, maxLen)
""", """	// the result is never longer than what has been read of a
	r := a[:0]
"""), ("index_memory_index.go", """	data, _ := mi.InvertedIndex[key]
	return slices.Copy(data)
""", """	data, _ := mi.InvertedIndex[key]
	return slices.Slice[int](data)
""")], '''
func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	mi.Put(NewDocRequest("1", "a"))
	mi.Put(NewDocRequest("2", "a b"))
	mi.Search("a b", LinearSearch)
	if got := mi.Search("a", LinearSearch); len(got) != 2 || got[0].Document.Name != "1" {
		t.Fatalf("%v", got)
	}
}
''', "a query of two tokens where the first one's posting list is not a prefix of the result, then a query of the first token", "searching overwrites posting lists")
seed("b15-indexed-shares", "C15", [("index_memory_index.go", """	data, _ := mi.InvertedIndex[key]
	return slices.Copy(data)
""", """	data, _ := mi.InvertedIndex[key]
	return slices.Slice[int](data)
""")], '''
func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	mi.Put(NewDocRequest("1", "a"))
	mi.Put(NewDocRequest("2", "a"))
	mi.Indexed("a")[0] = 1
	if got := mi.Indexed("a"); got[0] != 0 {
		t.Fatalf("%v", got)
	}
}
''', "a caller that modifies the posting list it was handed", "posting lists are handed out by reference")
seed("b16-builder-memo", "C16", [("index_memory_index.go", """	return func(name string) Index {
		return NewMemoryIndex(name, tokenizer)
	}
""", """	built := make(map[string]Index)
	return func(name string) Index {
		in, ok := built[name]
		if !ok {
			in = NewMemoryIndex(name, tokenizer)
			built[name] = in
		}
		return in
	}
""")], '''
func TestDemo(t *testing.T) {
	r := NewIndexRepo(NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer()))
	r.Put("a", NewDocRequest("1", "one"))
	r.Drop("a")
	r.Put("a", NewDocRequest("2", "two"))
	s, err := r.Search("a", "one", LinearSearch)
	if err != nil {
		t.Fatal(err)
	}
	if s.Next() {
		t.Fatal("a new index holds documents of a dropped one")
	}
}
''', "an index name reused after a drop, or by two repositories sharing a builder", "the builder hands out one index twice")
seed("b28-lowercase-in-place", "C28", [("analyze_lowercase_filter.go", """	r := make([]string, len(tokens), len(tokens))
	for i, token := range tokens {
		r[i] = strings.ToLower(token)
	}
	return r
""", """	for i, token := range tokens {
		tokens[i] = strings.ToLower(token)
	}
	return tokens
""")], '''
type demoTok struct{ words []string }

func (d demoTok) Tokenize(string) []string { return d.words }

func TestDemo(t *testing.T) {
	tok := demoTok{[]string{"A"}}
	NewTokenizationPipeline(tok, NewLowerCaseTokenizer()).Tokenize("A")
	if tok.words[0] != "A" {
		t.Fatal("the filter changed its input")
	}
}
''', "a tokenizer or caller that keeps the slice it passes to the filter", "the lower-casing filter writes into its input")
