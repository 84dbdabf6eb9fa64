R, S = "repos_repo.go", "search_result.go"
seed("b17-posting-cap", "C17", [("index_memory_index.go", "		mi.InvertedIndex[tok] = append(indexedDocs, next)\n", "		if len(indexedDocs) >= maxPostings {\n			continue // too common to tell documents apart\n		}\n		mi.InvertedIndex[tok] = append(indexedDocs, next)\n"), ("index_memory_index.go", "func NewMemoryIndex(", "// maxPostings bounds the work of queries with very common words.\nconst maxPostings = 1024\n\nfunc NewMemoryIndex(")], '''
func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	for i := 0; i < 1030; i++ {
		mi.Put(NewDocRequest("1", "red"))
	}
	if got := mi.Indexed("red"); len(got) != 1030 {
		t.Fatalf("red: %v postings", len(got))
	}
}
''', "a word that more than 1024 documents contain", "documents beyond the 1024th are not found by the word")
seed("b20-less-narrow", "C20", [(S, "		return r[i].Hits > r[j].Hits\n", "		return int8(r[i].Hits) > int8(r[j].Hits)\n")], '''
func TestDemo(t *testing.T) {
	r := SearchResults{{Document: NewDoc("1", ""), Hits: 200}, {Document: NewDoc("2", ""), Hits: 2}}
	if !r.Less(0, 1) || r.Less(1, 0) {
		t.Fatal("200 hits come after 2")
	}
}
''', "hit counts above 127", "hit counts are compared as signed bytes")
seed("b21-slots-by-arrival", "C21", [(R, """			partials[i] = idx.Search(terms, engine)
""", """			sr := idx.Search(terms, engine)
			mu.Lock()
			defer mu.Unlock()
			partials[len(indices)-left] = sr
			left--
"""), (R, "	wg.Add(len(indices))\n\n", "	wg.Add(len(indices))\n	left := len(indices)\n	var mu sync.Mutex\n\n"), (R, "		go func(i int, idx Index) {", "		go func(_ int, idx Index) {"), (R, "		}(i, index)", "		}(i, index)")], '''
type demoIdx struct{ name string }

func (d demoIdx) Put(DocRequest) Index { return d }
func (d demoIdx) Search(string, Engine) slices.Slice[SearchResult] {
	if d.name == "a" {
		time.Sleep(20 * time.Millisecond)
	}
	return slices.Slice[SearchResult]{{Document: NewDoc(d.name, "")}}
}

func TestDemo(t *testing.T) {
	r := NewIndexRepo(func(n string) Index { return demoIdx{n} })
	for _, n := range []string{"a", "b", "c"} {
		r.Put(n, NewDocRequest("1", "one"))
		r.Alias("x", n)
	}
	st, err := r.Search("x", "one", HitsSearch)
	if err != nil {
		t.Fatal(err)
	}
	s := ""
	for st.Next() {
		s += st.Data().Document.ID()
	}
	if s != "abc" {
		t.Fatal(s)
	}
}
''', "the first target of an alias answers later than another", "partial results are stored in the order in which the targets answer", imports=("testing", "time", "github.com/sonirico/vago/slices"))
seed("b09-fan-out-limit", "C09", [(R, "	partials := make([]slices.Slice[SearchResult], len(indices))\n", "	partials := make([]slices.Slice[SearchResult], len(indices))\n	if len(indices) > maxFanOut {\n		wg.Add(maxFanOut - len(indices))\n		indices = indices[:maxFanOut]\n	}\n"), (R, "func (h *IndexRepo) Search(", "// maxFanOut bounds the number of concurrent searches.\nconst maxFanOut = 64\n\nfunc (h *IndexRepo) Search(")], '''
func TestDemo(t *testing.T) {
	r := NewIndexRepo(NewMemoryIndexBuilder(NewKeepAlphanumericTokenizer()))
	for i := 0; i < 70; i++ {
		r.Put(strconv.Itoa(i), NewDocRequest("1", "one"))
		r.Alias("x", strconv.Itoa(i))
	}
	st, err := r.Search("x", "one", HitsSearch)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for st.Next() {
		n++
	}
	if n != 70 {
		t.Fatal(n)
	}
}
''', "an alias of more than 64 indexes", "targets beyond the 64th are not searched", imports=("testing", "strconv"))
