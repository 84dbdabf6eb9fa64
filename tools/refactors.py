#!/usr/bin/env python3
"""Behaviour-preserving edits on which every check must stay quiet.

refactors.py [-j N] [-p PROPS] [ids]   runs the checks (bin/vgcheck or $VG)
against a scratch clone of /repo with each edit and prints alarms."""
import os, subprocess, sys, tempfile, time, shutil, re
from concurrent.futures import ThreadPoolExecutor

REPO, IDX, HITS, LIN = "repos_repo.go", "index_memory_index.go", "search_hits_search.go", "search_linear_search.go"

def body(src, start, new):
    """replaces a top-level function that starts with a given line"""
    i = src.index(start)
    j = src.index("\n}\n", i) + 3
    return src[:i] + new.strip("\n") + "\n" + src[j:]

def imp(src, *paths):
    for p in paths:
        if '"%s"' % p in src:
            continue
        if "import (\n" in src:
            src = src.replace("import (\n", 'import (\n\t"%s"\n' % p, 1)
        else:
            src = src.replace("package visigoth\n", 'package visigoth\n\nimport "%s"\n' % p, 1)
    return src

R = {}
def r(f):
    R[f.__name__] = f
    return f

@r
def put_helper(s):
    t = s[IDX]
    t = body(t, "func (mi *MemoryIndex) Put", '''
func (mi *MemoryIndex) Put(payload DocRequest) Index {
	tokens := mi.tokenizer.Tokenize(payload.Statement())
	next := mi.Len()
	mi.Docs = append(mi.Docs, NewDoc(payload.ID(), payload.Raw()))
	for i := range tokens {
		mi.post(tokens[i], next)
	}
	return mi
}

func (mi *MemoryIndex) post(tok string, doc int) {
	list := mi.InvertedIndex[tok]
	for i := len(list) - 1; i >= 0; i-- {
		if list[i] == doc {
			return
		}
	}
	mi.InvertedIndex[tok] = append(list, doc)
}
''')
    s[IDX] = t

@r
def put_last(s):
    s[IDX] = body(s[IDX], "func (mi *MemoryIndex) Put", '''
func (mi *MemoryIndex) Put(payload DocRequest) Index {
	tokens := mi.tokenizer.Tokenize(payload.Statement())
	next := len(mi.Docs)
	mi.Docs = append(mi.Docs, NewDoc(payload.ID(), payload.Raw()))
	for _, tok := range tokens {
		postings, ok := mi.InvertedIndex[tok]
		if ok && postings[len(postings)-1] == next {
			continue
		}
		mi.InvertedIndex[tok] = append(postings, next)
	}
	return mi
}
''')

@r
def put_seen(s):
    s[IDX] = body(s[IDX], "func (mi *MemoryIndex) Put", '''
func (mi *MemoryIndex) Put(payload DocRequest) Index {
	tokens := mi.tokenizer.Tokenize(payload.Statement())
	id := len(mi.Docs)
	mi.Docs = append(mi.Docs, NewDoc(payload.ID(), payload.Raw()))
	seen := make(map[string]bool, len(tokens))
	for _, tok := range tokens {
		if seen[tok] {
			continue
		}
		seen[tok] = true
		mi.InvertedIndex[tok] = append(mi.InvertedIndex[tok], id)
	}
	return mi
}
''')

@r
def put_contains(s):
    t = imp(s[IDX], ).replace('import (\n', 'import (\n\tstdslices "slices"\n', 1)
    i = t.index("tokenLoop:")
    j = t.index("	return mi\n", i)
    s[IDX] = t[:i] + '''	for _, tok := range tokens {
		docs := mi.InvertedIndex[tok]
		if !stdslices.Contains(docs, next) {
			mi.InvertedIndex[tok] = append(docs, next)
		}
	}
''' + t[j:]

@r
def put_docs_after(s):
    t = s[IDX]
    t = t.replace("	mi.Docs = append(mi.Docs, newDoc)\n", "", 1)
    t = t.replace("	return mi\n", "	mi.Docs = append(mi.Docs, newDoc)\n	return mi\n", 1)
    s[IDX] = t

@r
def indexed_copy(s):
    s[IDX] = body(s[IDX], "func (mi *MemoryIndex) Indexed", '''
func (mi *MemoryIndex) Indexed(key string) []int {
	data, ok := mi.InvertedIndex[key]
	if !ok {
		return []int{}
	}
	out := make([]int, len(data))
	copy(out, data)
	return out
}
''')

@r
def index_rename_field(s):
    for f in (IDX,):
        s[f] = s[f].replace("mi.tokenizer", "mi.tkr").replace("	tokenizer tokenizer\n", "	tkr tokenizer\n").replace("		tokenizer:     tkr,", "		tkr:     tkr,")

@r
def hits_counts(s):
    t = s[HITS]
    i = t.index("	// Map to count hits per document (using")
    j = t.index("	// Phase 3")
    s[HITS] = t[:i] + '''	counts := make(map[int]int)
	for _, token := range tokens {
		for _, index := range indexer.Indexed(token) {
			counts[index]++
		}
	}

	var results SearchResults
	for i := 0; i < indexer.Len(); i++ {
		if hits, ok := counts[i]; ok && hits >= threshold {
			results = append(results, SearchResult{Document: indexer.Document(i), Hits: hits})
		}
	}

''' + t[j:]

@r
def hits_helper(s):
    t = s[HITS]
    i = t.index("	// Map to count hits per document (using")
    j = t.index("	// Phase 2")
    t = t[:i] + "	docHits := countHits(tokens, indexer)\n\n" + t[j:]
    s[HITS] = t + '''
func countHits(tokens []string, indexer Indexer) map[int]SearchResult {
	found := map[int]SearchResult{}
	for _, token := range tokens {
		for _, index := range indexer.Indexed(token) {
			result, ok := found[index]
			if !ok {
				result = SearchResult{Document: indexer.Document(index)}
			}
			result.Hits++
			found[index] = result
		}
	}
	return found
}
'''

@r
def hits_prealloc(s):
    s[HITS] = s[HITS].replace("	var results SearchResults\n", "	results := make(SearchResults, 0, len(docHits))\n").replace("	for i := 0; i < indexer.Len(); i++ {", "	total := indexer.Len()\n	for i := 0; i < total; i++ {")

@r
def hits_sortslice(s):
    s[HITS] = s[HITS].replace("sort.Sort(results)", '''sort.Slice(results, func(i, j int) bool {
		a, b := results[i], results[j]
		if a.Hits == b.Hits {
			return a.Document.Name < b.Document.Name
		}
		return a.Hits > b.Hits
	})''')

@r
def hits_stable(s):
    s[HITS] = s[HITS].replace("sort.Sort(results)", "sort.Stable(results)")

@r
def hits_pointers(s):
    t = s[HITS]
    t = t.replace("docHits := make(map[int]SearchResult)", "docHits := make(map[int]*SearchResult)")
    i = t.index("			if result, exists := docHits[index]; exists {")
    j = t.index("	// Phase 2")
    t = t[:i] + '''			if result, exists := docHits[index]; exists {
				result.Hits++
			} else {
				docHits[index] = &SearchResult{Document: doc, Hits: 1}
			}
		}
	}

''' + t[j:]
    s[HITS] = t.replace("results = append(results, result)", "results = append(results, *result)")

@r
def hits_early(s):
    s[HITS] = s[HITS].replace("	// Map to count hits", "	if threshold == 0 {\n		return nil\n	}\n\n	// Map to count hits", 1)

@r
def linear_helper(s):
    t = s[LIN]
    i = t.index("	// Convert document indices")
    t = t[:i] + '''	return resultsOf(docs, len(tokens), indexable)
}

func resultsOf(docs []int, hits int, indexable Indexer) slices.Slice[SearchResult] {
	out := make([]SearchResult, 0, len(docs))
	for _, d := range docs {
		out = append(out, SearchResult{Document: indexable.Document(d), Hits: hits})
	}
	return out
}
'''
    t = t.replace("for i := 1; i < len(tokens); i++ {\n		nextDocs := indexable.Indexed(tokens[i])", "for _, token := range tokens[1:] {\n		nextDocs := indexable.Indexed(token)")
    s[LIN] = t

@r
def linear_switch(s):
    s[LIN] = body(s[LIN], "func intersection", '''
func intersection(a []int, b []int) []int {
	var r []int
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		x, y := a[i], b[j]
		switch {
		case x == y:
			r = append(r, x)
			i++
			j++
		case x < y:
			i++
		default:
			j++
		}
	}
	return r
}
''')

@r
def linear_heads(s):
    s[LIN] = body(s[LIN], "func intersection", '''
func intersection(a []int, b []int) []int {
	r := []int{}
	for len(a) > 0 && len(b) > 0 {
		if a[0] < b[0] {
			a = a[1:]
		} else if b[0] < a[0] {
			b = b[1:]
		} else {
			r = append(r, a[0])
			a, b = a[1:], b[1:]
		}
	}
	return r
}
''')

@r
def linear_nested(s):
    s[LIN] = body(s[LIN], "func intersection", '''
func intersection(a []int, b []int) []int {
	r := make([]int, 0)
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j < len(b) && b[j] == x {
			r = append(r, x)
			j++
		}
	}
	return r
}
''')

@r
def linear_map(s):
    s[LIN] = body(s[LIN], "func intersection", '''
func intersection(a []int, b []int) []int {
	in := make(map[int]struct{}, len(b))
	for _, x := range b {
		in[x] = struct{}{}
	}
	r := make([]int, 0, len(a))
	for _, x := range a {
		if _, ok := in[x]; ok {
			r = append(r, x)
		}
	}
	return r
}
''')

@r
def alias_helper(s):
    t = body(s[REPO], "func (h *IndexRepo) Alias", '''
func (h *IndexRepo) Alias(alias string, index string) bool {
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	if _, ok := h.indices[index]; !ok {
		return false
	}
	h.aliasesMu.Lock()
	defer h.aliasesMu.Unlock()
	if hasName(h.aliases[alias], index) {
		return false
	}
	h.aliases[alias] = append(h.aliases[alias], index)
	return true
}

func hasName(names []string, name string) bool {
	for _, n := range names {
		if n == name {
			return true
		}
	}
	return false
}
''')
    s[REPO] = t

WITHOUT = '''

func without(names []string, name string) []string {
	var rest []string
	for _, n := range names {
		if n == name {
			continue
		}
		rest = append(rest, n)
	}
	return rest
}

func (h *IndexRepo) setAlias(alias string, names []string) {
	if len(names) == 0 {
		delete(h.aliases, alias)
		return
	}
	h.aliases[alias] = names
}
'''

@r
def drop_helper(s):
    t = body(s[REPO], "func (h *IndexRepo) Drop", '''
func (h *IndexRepo) Drop(indexName string) bool {
	h.indicesMu.Lock()
	defer h.indicesMu.Unlock()
	if _, ok := h.indices[indexName]; !ok {
		return false
	}
	h.aliasesMu.Lock()
	defer h.aliasesMu.Unlock()
	for alias, indices := range h.aliases {
		h.setAlias(alias, without(indices, indexName))
	}
	delete(h.indices, indexName)
	return true
}
''')
    t = body(t, "func (h *IndexRepo) UnAlias", '''
func (h *IndexRepo) UnAlias(alias, index string) bool {
	if index == "" {
		return h.removeAlias(alias)
	}
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	_, known := h.indices[index]
	if !known {
		return false
	}
	h.aliasesMu.Lock()
	defer h.aliasesMu.Unlock()
	indices, ok := h.aliases[alias]
	if ok {
		h.setAlias(alias, without(indices, index))
	}
	return ok
}

func (h *IndexRepo) removeAlias(alias string) (ok bool) {
	h.aliasesMu.Lock()
	defer h.aliasesMu.Unlock()
	if _, ok = h.aliases[alias]; ok {
		delete(h.aliases, alias)
	}
	return
}
''')
    s[REPO] = t + WITHOUT

@r
def drop_deletefunc(s):
    t = s[REPO].replace('import (\n', 'import (\n\tstdslices "slices"\n', 1)
    a = '''		var newIndices []string
		for _, aliasedIndexName := range indices {
			if aliasedIndexName != indexName {
				newIndices = append(newIndices, aliasedIndexName)
			}
		}
'''
    assert a in t
    t = t.replace(a, '''		newIndices := stdslices.DeleteFunc(stdslices.Clone(indices), func(n string) bool { return n == indexName })
''')
    s[REPO] = t

@r
def search_resolve(s):
    t = s[REPO]
    i = t.index("	// Get indices while holding the lock\n")
    j = t.index("	if len(indices) == 1 {", i)
    t = t[:i] + '''	indices, ok := h.getIndices(indexName)
	if !ok {
		return nil, fmt.Errorf("index with name '%s' does not exist", indexName)
	}

''' + t[j:]
    t = t.replace('''		go func(i int, idx Index) {
			defer wg.Done()
			partials[i] = idx.Search(terms, engine)
		}(i, index)
''', '''		go func() {
			defer wg.Done()
			partials[i] = index.Search(terms, engine)
		}()
''')
    s[REPO] = t

@r
def search_fan_helper(s):
    t = s[REPO]
    i = t.index("	var (\n		wg     sync.WaitGroup")
    j = t.index("func (h *IndexRepo) Put")
    t = t[:i] + '''	return streams.MemReader(searchAll(indices, terms, engine), nil), nil
}

func searchAll(indices []Index, terms string, engine Engine) slices.Slice[SearchResult] {
	var wg sync.WaitGroup
	partials := make([][]SearchResult, len(indices))
	for i := range indices {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			partials[i] = indices[i].Search(terms, engine)
		}(i)
	}
	wg.Wait()
	var all []SearchResult
	for _, p := range partials {
		all = append(all, p...)
	}
	return all
}

''' + t[j:]
    s[REPO] = t

@r
def search_sequential(s):
    t = s[REPO]
    i = t.index("	var (\n		wg     sync.WaitGroup")
    j = t.index("func (h *IndexRepo) Put")
    s[REPO] = t[:i] + '''	var result slices.Slice[SearchResult]
	for _, index := range indices {
		result.AppendVector(index.Search(terms, engine))
	}
	return streams.MemReader(result, nil), nil
}

''' + t[j:]

@r
def put_sequential(s):
    t = s[REPO]
    i = t.index("	var wg sync.WaitGroup\n	wg.Add(len(indices))")
    j = t.index("func (h *IndexRepo) Drop")
    s[REPO] = t[:i] + '''	for i := range indices {
		indices[i].Put(doc)
	}
}

''' + t[j:]

@r
def put_single_shortcut(s):
    s[REPO] = s[REPO].replace("	var wg sync.WaitGroup\n	wg.Add(len(indices))\n	for _, in := range", "	if len(indices) == 1 {\n		indices[0].Put(doc)\n		return\n	}\n	var wg sync.WaitGroup\n	wg.Add(len(indices))\n	for _, in := range")

@r
def put_create_helper(s):
    t = s[REPO].replace('''		in := h.indexBuilder(indexName)
		h.indices[indexName] = in
		in.Put(doc)
		return
''', '''		h.create(indexName).Put(doc)
		return
''')
    s[REPO] = t + '''
// create must be called with indicesMu held
func (h *IndexRepo) create(name string) Index {
	in := h.indexBuilder(name)
	h.indices[name] = in
	return in
}
'''

@r
def put_add_one(s):
    t = s[REPO]
    t = t.replace('''	wg.Add(len(indices))
	for _, in := range indices {
		go func(index Index) {
			index.Put(doc)
			wg.Done()
		}(in)
''', '''	for _, in := range indices {
		wg.Add(1)
		go func(index Index) {
			defer wg.Done()
			index.Put(doc)
		}(in)
''')
    s[REPO] = t

@r
def list_append(s):
    t = body(s[REPO], "func (h *IndexRepo) List()", '''
func (h *IndexRepo) List() []string {
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	names := make([]string, 0, len(h.indices))
	for name := range h.indices {
		names = append(names, name)
	}
	return names
}
''')
    t = body(t, "func (h *IndexRepo) ListAliases()", '''
func (h *IndexRepo) ListAliases() (res AliasesResult) {
	h.aliasesMu.RLock()
	defer h.aliasesMu.RUnlock()
	res.Aliases = make([]AliasesResultRow, 0, len(h.aliases))
	for k, v := range h.aliases {
		row := AliasesResultRow{Alias: k}
		row.Indices = append(row.Indices, v...)
		res.Aliases = append(res.Aliases, row)
	}
	return res
}
''')
    s[REPO] = t

@r
def rename_order(s):
    s[REPO] = body(s[REPO], "func (h *IndexRepo) Rename", '''
func (h *IndexRepo) Rename(old string, new string) bool {
	h.indicesMu.Lock()
	defer h.indicesMu.Unlock()
	index, ok := h.indices[old]
	if !ok {
		return false
	}
	h.aliasesMu.Lock()
	defer h.aliasesMu.Unlock()
	for alias := range h.aliases {
		h.aliases[alias] = renamed(h.aliases[alias], old, new)
	}
	delete(h.indices, old)
	h.indices[new] = index
	return true
}

func renamed(names []string, old, new string) []string {
	out := make([]string, 0, len(names))
	done := false
	for _, n := range names {
		if n != old && n != new {
			out = append(out, n)
		} else if !done {
			out = append(out, new)
			done = true
		}
	}
	return out
}
''')

@r
def rename_same(s):
    s[REPO] = s[REPO].replace("	// 2. Perform the swap\n", "	if old == new {\n		h.indicesMu.Unlock()\n		return true\n	}\n	// 2. Perform the swap\n")

@r
def locked_helper(s):
    t = s[REPO]
    t = body(t, "func (h *IndexRepo) Has(", '''
func (h *IndexRepo) Has(name string) (ok bool) {
	h.readIndices(func() { _, ok = h.indices[name] })
	return
}

func (h *IndexRepo) readIndices(f func()) {
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	f()
}
''')
    s[REPO] = t

@r
def has_lookup(s):
    t = s[REPO]
    t = body(t, "func (h *IndexRepo) Has(", '''
func (h *IndexRepo) Has(name string) bool {
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	return h.indices[name] != nil
}
''')
    t = body(t, "func (h *IndexRepo) HasAlias(", '''
func (h *IndexRepo) HasAlias(name string) bool {
	h.aliasesMu.RLock()
	defer h.aliasesMu.RUnlock()
	return len(h.aliases[name]) > 0
}
''')
    s[REPO] = t

@r
def value_mutex(s):
    t = s[REPO]
    t = t.replace("indicesMu *sync.RWMutex", "indicesMu sync.RWMutex").replace("aliasesMu *sync.RWMutex", "aliasesMu sync.RWMutex")
    t = t.replace("		indicesMu:    new(sync.RWMutex),\n", "").replace("		aliasesMu:    new(sync.RWMutex),\n", "")
    s[REPO] = t

@r
def ctor_steps(s):
    s[REPO] = body(s[REPO], "func NewIndexRepo", '''
func NewIndexRepo(builder Builder) *IndexRepo {
	repo := new(IndexRepo)
	repo.indices = map[string]Index{}
	repo.aliases = map[string][]string{}
	repo.indicesMu, repo.aliasesMu = &sync.RWMutex{}, &sync.RWMutex{}
	repo.indexBuilder = builder
	return repo
}
''')

@r
def filters_append(s):
    f = [k for k in s if "StopWordsFilter) Filter" in s[k]][0]
    s[f] = body(s[f], "func (s StopWordsFilter) Filter", '''
func (s StopWordsFilter) Filter(tokens []string) (kept []string) {
	kept = []string{}
	for i := 0; i < len(tokens); i++ {
		if s.stops(tokens[i]) {
			continue
		}
		kept = append(kept, tokens[i])
	}
	return kept
}

func (s StopWordsFilter) stops(token string) bool {
	_, ok := s.stopWords[token]
	return ok
}
''')
    f = [k for k in s if "LowerCaseFilter) Filter" in s[k]][0]
    s[f] = body(s[f], "func (l LowerCaseFilter) Filter", '''
func (l LowerCaseFilter) Filter(tokens []string) []string {
	lowered := make([]string, 0, len(tokens))
	for _, token := range tokens {
		lowered = append(lowered, strings.ToLower(token))
	}
	return lowered
}
''')
    f = [k for k in s if "SpanishStemmerFilter) Filter" in s[k]][0]
    s[f] = body(s[f], "func (s SpanishStemmerFilter) Filter", '''
func (s SpanishStemmerFilter) Filter(tokens []string) []string {
	r := make([]string, len(tokens))
	for i := range tokens {
		r[i] = snowballSpanish.Stem(tokens[i], s.removeStopWords)
	}
	return r
}
''')

@r
def pipeline_index(s):
    f = [k for k in s if "TokenizationPipeline) Tokenize" in s[k]][0]
    s[f] = body(s[f], "func (p *TokenizationPipeline) Tokenize", '''
func (p *TokenizationPipeline) Tokenize(text string) []string {
	return applyAll(p.filters, p.tokenizer.Tokenize(text))
}

func applyAll(filters []Filter, tokens []string) []string {
	for i := 0; i < len(filters); i++ {
		tokens = filters[i].Filter(tokens)
	}
	return tokens
}
''')

@r
def tokenizer_keep(s):
    f = [k for k in s if "CleanTokenizer) Tokenize" in s[k]][0]
    s[f] = body(s[f], "func (c *CleanTokenizer) Tokenize", '''
func (c *CleanTokenizer) Tokenize(text string) []string {
	return strings.FieldsFunc(text, func(r rune) bool { return !c.keeps(r) })
}

func (c *CleanTokenizer) keeps(r rune) bool {
	for i := range c.fns {
		if c.fns[i](r) {
			return true
		}
	}
	return false
}
''')
    s[f] = s[f].replace("return unicode.IsNumber(r) || unicode.IsLetter(r)", "if unicode.IsLetter(r) {\n			return true\n		}\n		return unicode.IsNumber(r)")

@r
def less_compare(s):
    s["search_result.go"] = imp(body(s["search_result.go"], "func (r SearchResults) Less", '''
func (r SearchResults) Less(i, j int) bool {
	a, b := r[i], r[j]
	if d := cmp.Compare(b.Hits, a.Hits); d != 0 {
		return d < 0
	}
	return strings.Compare(a.Document.ID(), b.Document.ID()) < 0
}
'''), "cmp", "strings").replace('import "strings"\n\nimport "cmp"\n', 'import (\n\t"cmp"\n\t"strings"\n)\n')

@r
def noop_range(s):
    s["search_noop_search.go"] = body(s["search_noop_search.go"], "func NoopAllSearch", '''
func NoopAllSearch(tokens []string, indexable Indexer) slices.Slice[SearchResult] {
	n := indexable.Len()
	results := make([]SearchResult, 0, n)
	for i := range n {
		results = append(results, SearchResult{Document: indexable.Document(i)})
	}
	return results
}
''')

@r
def requests_shared(s):
    f = [k for k in s if "func NewDocRequestWithMime" in s[k]][0]
    t = body(s[f], "func NewDocRequest(", '''
func NewDocRequest(name, content string) DocRequest {
	return NewDocRequestWith(name, content, content)
}
''')
    t = body(t, "func NewDocRequestWithMime", '''
func NewDocRequestWithMime(name, content string, mime MimeType) (req DocRequest) {
	req = NewDocRequest(name, content)
	req.MimeType = mime
	return
}
''')
    s[f] = t

def std(t, *ps):
    return t.replace("import (\n", "import (\n" + "".join("\t%s\n" % p for p in ps), 1)

@r
def hits_sortfunc(s):
    t = s[HITS].replace("sort.Sort(results)", """stdslices.SortFunc(results, func(a, b SearchResult) int {
		return cmp.Or(cmp.Compare(b.Hits, a.Hits), strings.Compare(a.Document.Name, b.Document.Name))
	})""").replace('\t"sort"\n', "")
    s[HITS] = std(t, '"cmp"', 'stdslices "slices"', '"strings"')

@r
def hits_keys(s):
    t = s[HITS]
    i = t.index("	// Iterate through documents in index")
    j = t.index("	// Phase 3")
    t = t[:i] + """	found := make([]int, 0, len(docHits))
	for i := range docHits {
		found = append(found, i)
	}
	sort.Ints(found)
	for _, i := range found {
		if result := docHits[i]; result.Hits >= threshold {
			results = append(results, result)
		}
	}

""" + t[j:]
    s[HITS] = t

@r
def hits_min(s):
    s[HITS] = s[HITS].replace("exists && result.Hits >= threshold", "exists && !(result.Hits < threshold)").replace("		if indexed == nil {\n			continue\n		}\n", "")

@r
def put_search(s):
    t = s[IDX]
    i = t.index("tokenLoop:")
    j = t.index("	return mi\n", i)
    s[IDX] = std(t[:i] + """	for _, tok := range tokens {
		docs := mi.InvertedIndex[tok]
		if at := sort.SearchInts(docs, next); at < len(docs) {
			continue
		}
		mi.InvertedIndex[tok] = append(docs, next)
	}
""" + t[j:], '"sort"')

@r
def put_index(s):
    t = s[IDX]
    i = t.index("tokenLoop:")
    j = t.index("	return mi\n", i)
    s[IDX] = std(t[:i] + """	for _, tok := range tokens {
		if docs := mi.InvertedIndex[tok]; stdslices.Index(docs, next) < 0 {
			mi.InvertedIndex[tok] = append(docs, next)
		}
	}
""" + t[j:], 'stdslices "slices"')

@r
def put_compact(s):
    t = s[IDX]
    i = t.index("tokenLoop:")
    j = t.index("	return mi\n", i)
    s[IDX] = t[:i] + """	fresh := map[string]struct{}{}
	for _, tok := range tokens {
		fresh[tok] = struct{}{}
	}
	for tok := range fresh {
		mi.InvertedIndex[tok] = append(mi.InvertedIndex[tok], next)
	}
""" + t[j:]

@r
def list_maps(s):
    t = body(s[REPO], "func (h *IndexRepo) List()", """
func (h *IndexRepo) List() []string {
	h.indicesMu.RLock()
	defer h.indicesMu.RUnlock()
	return stdslices.Collect(maps.Keys(h.indices))
}
""")
    s[REPO] = std(t, '"maps"', 'stdslices "slices"')

@r
def list_sorted(s):
    t = s[REPO].replace("		indices[i] = iname\n		i++\n	}\n	return indices", "		indices[i] = iname\n		i++\n	}\n	sort.Strings(indices)\n	return indices")
    t = t.replace("	h.aliasesMu.RUnlock()\n	return AliasesResult{", "	h.aliasesMu.RUnlock()\n	sort.Slice(aliases, func(i, j int) bool { return aliases[i].Alias < aliases[j].Alias })\n	return AliasesResult{")
    s[REPO] = std(t, '"sort"')

@r
def alias_index(s):
    t = s[REPO]
    i = t.index("		exists := false\n")
    j = t.index("		if !exists {", i)
    s[REPO] = std(t[:i] + t[j:].replace("if !exists {", "if !stdslices.Contains(indices, index) {", 1), 'stdslices "slices"')

@r
def search_channel(s):
    t = s[REPO]
    i = t.index("	var (\n		wg     sync.WaitGroup")
    j = t.index("func (h *IndexRepo) Put")
    s[REPO] = t[:i] + """	type part struct {
		at int
		sr slices.Slice[SearchResult]
	}
	parts := make(chan part, len(indices))
	for i, index := range indices {
		go func() { parts <- part{i, index.Search(terms, engine)} }()
	}
	partials := make([]slices.Slice[SearchResult], len(indices))
	for range indices {
		p := <-parts
		partials[p.at] = p.sr
	}
	var result slices.Slice[SearchResult]
	for _, sr := range partials {
		result.AppendVector(sr)
	}
	return streams.MemReader(result, nil), nil
}

""" + t[j:]

@r
def drop_keep(s):
    t = s[REPO]
    i = t.index("	for alias, indices := range h.aliases {", t.index("// Drop references"))
    j = t.index("	// Actually drop")
    s[REPO] = std(t[:i] + """	for alias, indices := range h.aliases {
		at := stdslices.Index(indices, indexName)
		if at < 0 {
			continue
		}
		if len(indices) == 1 {
			delete(h.aliases, alias)
			continue
		}
		rest := make([]string, 0, len(indices)-1)
		rest = append(rest, indices[:at]...)
		h.aliases[alias] = append(rest, indices[at+1:]...)
	}
""" + t[j:], 'stdslices "slices"')

@r
def has_comma(s):
    s[REPO] = s[REPO].replace("	h.indicesMu.RLock()\n	if _, ok := h.indices[index]; !ok {\n		h.indicesMu.RUnlock()\n		return false\n	}", "	h.indicesMu.RLock()\n	_, found := h.indices[index]\n	if !found {\n		h.indicesMu.RUnlock()\n		return false\n	}")

@r
def resolve_names(s):
    t = s[REPO]
    i = t.index("// getIndices must be called")
    j = t.index("func (h *IndexRepo) String()")
    s[REPO] = t[:i] + """// getIndices must be called with indicesMu held
func (h *IndexRepo) getIndices(name string) (res []Index, ok bool) {
	names := []string{name}
	if _, direct := h.indices[name]; !direct {
		h.aliasesMu.RLock()
		defer h.aliasesMu.RUnlock()
		if names, ok = h.aliases[name]; !ok {
			return nil, false
		}
	}
	for _, n := range names {
		res = append(res, h.indices[n])
	}
	return res, true
}

""" + t[j:]

@r
def indexed_append(s):
    s[IDX] = body(s[IDX], "func (mi *MemoryIndex) Indexed", """
func (mi *MemoryIndex) Indexed(key string) []int {
	return append([]int(nil), mi.InvertedIndex[key]...)
}
""")

def fan(s, search, put, std_=""):
    t = s[REPO]
    if search:
        i = t.index("	wg.Add(len(indices))\n\n	partials")
        j = t.index("	for _, sr := range partials")
        t = t[:i] + search + t[j:]
    if put:
        i = t.index("	var wg sync.WaitGroup\n")
        j = t.index("func (h *IndexRepo) Drop(")
        t = t[:i] + put + "}\n\n" + t[j:]
    s[REPO] = t

@r
def fan_semaphore(s):
    fan(s, """	sem := make(chan struct{}, 4)
	partials := make([]slices.Slice[SearchResult], len(indices))
	for i, index := range indices {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, idx Index) {
			defer wg.Done()
			defer func() { <-sem }()
			partials[i] = idx.Search(terms, engine)
		}(i, index)
	}
	wg.Wait()
""", """	var wg sync.WaitGroup
	sem := make(chan struct{}, 4)
	for _, in := range indices {
		wg.Add(1)
		go func(index Index) {
			sem <- struct{}{}
			defer wg.Done()
			index.Put(doc)
			<-sem
		}(in)
	}
	wg.Wait()
""")

@r
def fan_workers(s):
    fan(s, "", """	var wg sync.WaitGroup
	jobs := make(chan Index, len(indices))
	for _, in := range indices {
		jobs <- in
	}
	close(jobs)
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for in := range jobs {
				in.Put(doc)
			}
		}()
	}
	wg.Wait()
""")

@r
def fan_inline(s):
    fan(s, """	wg.Add(len(indices) - 1)

	partials := make([]slices.Slice[SearchResult], len(indices))
	for i := 1; i < len(indices); i++ {
		go func(i int, idx Index) {
			defer wg.Done()
			partials[i] = idx.Search(terms, engine)
		}(i, indices[i])
	}
	partials[0] = indices[0].Search(terms, engine)
	wg.Wait()
""", "")

@r
def fan_sequential(s):
    fan(s, "", """	for _, in := range indices {
		in.Put(doc)
	}
""")
    t = s[REPO]
    i = t.index("	var (\n		wg     sync.WaitGroup")
    j = t.index("	return streams.MemReader(result, nil), nil")
    s[REPO] = t[:i] + """	var result slices.Slice[SearchResult]
	for _, index := range indices {
		result.AppendVector(index.Search(terms, engine))
	}
""" + t[j:]

@r
def fan_closer(s):
    fan(s, """	type part struct {
		at int
		sr slices.Slice[SearchResult]
	}
	wg.Add(len(indices))
	parts := make(chan part)
	for i, index := range indices {
		go func(i int, idx Index) {
			defer wg.Done()
			parts <- part{i, idx.Search(terms, engine)}
		}(i, index)
	}
	go func() {
		wg.Wait()
		close(parts)
	}()
	partials := make([]slices.Slice[SearchResult], len(indices))
	for p := range parts {
		partials[p.at] = p.sr
	}
""", "")

@r
def fan_errs(s):
    fan(s, """	var mu sync.Mutex
	partials := make(map[int]slices.Slice[SearchResult], len(indices))
	run := func(i int) {
		sr := indices[i].Search(terms, engine)
		mu.Lock()
		defer mu.Unlock()
		partials[i] = sr
	}
	for i := range indices {
		wg.Add(1)
		go func() {
			run(i)
			wg.Done()
		}()
	}
	wg.Wait()
	for i := 0; i < len(indices); i++ {
		result.AppendVector(partials[i])
	}
	return streams.MemReader(result, nil), nil
}
""", "")
    t = s[REPO]
    i = t.index("	for _, sr := range partials")
    j = t.index("func (h *IndexRepo) Put(")
    s[REPO] = t[:i] + "\n" + t[j:]

@r
def put_type_group(s):
    fan(s, "", """	forEach(indices, func(in Index) { in.Put(doc) })
""")
    s[REPO] += """
// forEach runs f on every index, at the same time, and waits.
func forEach(indices []Index, f func(Index)) {
	var wg sync.WaitGroup
	defer wg.Wait()
	for _, in := range indices {
		in := in
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(in)
		}()
	}
}
"""

def main():
    args = sys.argv[1:]
    jobs, props = 2, None
    while args and args[0].startswith("-"):
        if args[0] == "-j":
            jobs = int(args[1])
        else:
            props = args[1].split(",")
        args = args[2:]
    if props is None:
        props = ["C%02d" % i for i in range(1, 33)]
    vg = os.environ.get("VG", "/verif/bin/vgcheck")
    tmp = tempfile.mkdtemp(prefix="refac")
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off")
    todo = []
    for n in args or R:
        d = os.path.join(tmp, n)
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        src = {f: open(os.path.join(d, f)).read() for f in os.listdir(d) if f.endswith(".go") and not f.endswith("_test.go")}
        old = dict(src)
        R[n](src)
        ch = [f for f in src if src[f] != old[f]]
        assert ch, n
        for f in ch:
            open(os.path.join(d, f), "w").write(src[f])
        t = subprocess.run("gofmt -l . ; go vet . && go test . 2>&1 | tail -5", shell=True, cwd=d, capture_output=True, text=True)
        if "ok " not in t.stdout:
            print(n, "DOES NOT PASS", (t.stdout + t.stderr)[-600:])
            continue
        for p in props:
            todo.append((n, d, p))
    def one(j):
        n, d, p = j
        t0 = time.time()
        o = subprocess.run([vg, "-repo", d, "-verif", os.path.join(tmp, "v", n, p), "-prop", p], capture_output=True, text=True)
        out = o.stdout + o.stderr
        return n, p, o.returncode, time.time() - t0, out
    bad = 0
    with ThreadPoolExecutor(jobs) as ex:
        for n, p, rc, t, out in ex.map(one, todo):
            nd = out.count("NOT-DECIDED")
            if rc != 0 or t > 300 or nd > 0:
                why = [l for l in out.split("\n") if l.startswith("[") or l.startswith("  ")][:3] if rc else [l for l in out.split("\n") if "NOT-DEC" in l][:1]
                print("%s %s exit=%d %.0fs nd=%d %s" % (n, p, rc, t, nd, " | ".join(w.strip()[:200] for w in why)), flush=True)
            bad += rc != 0
    shutil.rmtree(tmp)
    print("alarms:", bad)

main()
