seed("b17-posting-break", "C17", [("index_memory_index.go", "				continue tokenLoop\n", "				break tokenLoop\n")], '''
func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	mi.Put(NewDocRequest("1", "red red blue"))
	if got := mi.Indexed("blue"); len(got) != 1 {
		t.Fatalf("blue: %v", got)
	}
}
''', "a document that repeats a word before the last distinct word", "the words after the first repeated one are not indexed")
seed("b17-posting-front", "C17", [("index_memory_index.go", "		mi.InvertedIndex[tok] = append(indexedDocs, next)\n", "		mi.InvertedIndex[tok] = append(indexedDocs[:len(indexedDocs):len(indexedDocs)], len(mi.Docs)-1)\n		if len(indexedDocs) > 3 {\n			mi.InvertedIndex[tok] = mi.InvertedIndex[tok][1:]\n		}\n")], '''
func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	for i := 0; i < 9; i++ {
		mi.Put(NewDocRequest("1", "red"))
	}
	if got := mi.Indexed("red"); len(got) != 9 {
		t.Fatalf("red: %v", got)
	}
}
''', "a word that more than four documents contain", "posting lists are capped to the newest documents")
seed("b18-linear-skips-same-list", "C18", [("search_linear_search.go", """	for i := 1; i < len(tokens); i++ {
""", """	hits := 1
	for i := 1; i < len(tokens); i++ {
		if tokens[i] != tokens[i-1] {
			hits++
		}
"""), ("search_linear_search.go", "			Hits:     len(tokens), // All tokens were found\n", "			Hits:     hits,\n")], '''
func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	mi.Put(NewDocRequest("1", "red"))
	got := mi.Search("red red", LinearSearch)
	if len(got) != 1 || got[0].Hits != 2 {
		t.Fatalf("%v", got)
	}
}
''', "a query that repeats a token", "hit counts leave out repeated query tokens")
seed("b18-intersection-stops", "C18", [("search_linear_search.go", "	for i < len(a) && j < len(b) {\n", "	for i < len(a) && j < len(b) && len(r) < 8 {\n")], '''
func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	for i := 0; i < 9; i++ {
		mi.Put(NewDocRequest("1", "red blue"))
	}
	if got := mi.Search("red blue", LinearSearch); len(got) != 9 {
		t.Fatalf("%v", got)
	}
}
''', "nine or more documents that share two tokens", "the intersection stops after eight documents")
seed("b19-threshold-capped", "C19", [("search_hits_search.go", "	threshold := len(tokens)\n", "	threshold := min(len(tokens), 3)\n")], '''
func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	mi.Put(NewDocRequest("1", "a b c"))
	if got := mi.Search("a b c d", HitsSearch); len(got) != 0 {
		t.Fatalf("%v", got)
	}
}
''', "a query of four or more tokens", "documents that miss a token of a long query are returned")
seed("b19-hits-unique-token", "C19", [("search_hits_search.go", """	for _, token := range tokens {
""", """	for n, token := range tokens {
		if n > 0 && token == tokens[0] {
			threshold--
			continue
		}
""")], '''
func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	mi.Put(NewDocRequest("1", "a b c"))
	if got := mi.Search("a b a", HitsSearch); len(got) != 1 || got[0].Hits != 3 {
		t.Fatalf("%v", got)
	}
}
''', "a query that repeats its first token", "repeated query tokens are not counted")
seed("b20-id-length-first", "C20", [("search_result.go", "	return r[i].Document.ID() < r[j].Document.ID()\n", "	a, b := r[i].Document.ID(), r[j].Document.ID()\n	if len(a) != len(b) {\n		return len(a) < len(b)\n	}\n	return a < b\n")], '''
func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	mi.Put(NewDocRequest("doc2", "a"))
	mi.Put(NewDocRequest("doc10", "a"))
	if got := mi.Search("a", HitsSearch); got[0].Document.ID() != "doc10" {
		t.Fatalf("%v", got)
	}
}
''', "identifiers of different lengths", "ties are ordered by the length of the identifier first")
seed("b20-sort-small-only", "C20", [("search_hits_search.go", "	sort.Sort(results)\n", "	if threshold > 0 && results.Len() < 4*threshold {\n		sort.Sort(results)\n	}\n")], '''
func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	for _, id := range []string{"e", "d", "c", "b", "a"} {
		mi.Put(NewDocRequest(id, "x"))
	}
	if got := mi.Search("x", HitsSearch); got[0].Document.ID() != "a" {
		t.Fatalf("%v", got)
	}
}
''', "four or more results per query token", "larger result lists are not sorted")
seed("b21-results-in-map-order", "C21", [("search_hits_search.go", """	for i := 0; i < indexer.Len(); i++ {
		// Only include documents that have ALL tokens (hits >= threshold)
		if result, exists := docHits[i]; exists && result.Hits >= threshold {
""", """	for _, result := range docHits {
		// Only include documents that have ALL tokens (hits >= threshold)
		if result.Hits >= threshold {
""")], '''
func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	for _, c := range []string{"x 1", "x 2", "x 3", "x 4"} {
		mi.Put(NewDocRequest("same", c))
	}
	first := ""
	for i := 0; i < 200; i++ {
		s := ""
		for _, r := range mi.Search("x", HitsSearch) {
			s += r.Document.Raw() + ";"
		}
		if i == 0 {
			first = s
		}
		if s != first {
			t.Fatalf("%s / %s", first, s)
		}
	}
}
''', "several matching documents under one identifier", "documents with one identifier come back in map order")
seed("b22-noop-skips-blank", "C22", [("search_noop_search.go", "		doc := indexable.Document(i)\n", "		doc := indexable.Document(i)\n		if doc == (Doc{}) {\n			continue\n		}\n")], '''
func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	mi.Put(NewDocRequest("", ""))
	if got := mi.Search("", NoopAllSearch); len(got) != 1 {
		t.Fatalf("%v", got)
	}
}
''', "a document without identifier and content", "blank documents are left out")
seed("b23-search-lowercased", "C23", [("index_memory_index.go", "	return engine(mi.tokenizer.Tokenize(payload), mi)\n", "	return engine(mi.tokenizer.Tokenize(strings.ToLower(payload)), mi)\n"), ("index_memory_index.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')], '''
func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	mi.Put(NewDocRequest("1", "Madrid"))
	if got := mi.Search("Madrid", LinearSearch); len(got) != 1 {
		t.Fatalf("%v", got)
	}
}
''', "an analyzer that does not itself lower-case", "queries are analyzed in lower case, documents are not")
seed("b23-search-drops-duplicates", "C23", [("index_memory_index.go", "	return engine(mi.tokenizer.Tokenize(payload), mi)\n", """	tokens := mi.tokenizer.Tokenize(payload)
	if n := len(tokens); n > 1 && tokens[n-1] == tokens[0] {
		tokens = tokens[:n-1]
	}
	return engine(tokens, mi)
""")], '''
func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	mi.Put(NewDocRequest("1", "a b"))
	if got := mi.Search("a b a", LinearSearch); len(got) != 1 || got[0].Hits != 3 {
		t.Fatalf("%v", got)
	}
}
''', "a query that ends with its first token", "the last query token is dropped when it equals the first")
seed("b24-mime-statement", "C24", [("entities_request.go", """		MimeType:  mime,
		statement: content,
""", """		MimeType:  mime,
		statement: strings.TrimPrefix(content, "{"),
"""), ("entities_request.go", "package visigoth\n", 'package visigoth\n\nimport "strings"\n')], '''
func TestDemo(t *testing.T) {
	if got := NewDocRequestWithMime("a", "{}", MimeJSON).Statement(); got != "{}" {
		t.Fatalf("%q", got)
	}
}
''', "a typed request whose content starts with a brace", "the searchable text of a typed request is not its content")
seed("b24-stores-statement", "C24", [("index_memory_index.go", "	newDoc := NewDoc(payload.ID(), payload.Raw())\n", "	newDoc := NewDoc(payload.ID(), payload.Raw())\n	if payload.Mime() == MimeJSON {\n		newDoc.Content = payload.Statement()\n	}\n")], '''
func TestDemo(t *testing.T) {
	r := NewDocRequestWith("a", "raw", "stmt")
	r.MimeType = MimeJSON
	mi := NewMemoryIndex("a", NewKeepAlphanumericTokenizer())
	mi.Put(r)
	if got := mi.Document(0).Raw(); got != "raw" {
		t.Fatalf("%q", got)
	}
}
''', "a JSON request with its own searchable text", "the searchable text is stored instead of the content")
seed("b25-digits-only", "C25", [("analyze_clean_tokenizer.go", "unicode.IsNumber(r)", "unicode.IsDigit(r)")], '''
func TestDemo(t *testing.T) {
	if got := NewKeepAlphanumericTokenizer().Tokenize("x²"); len(got) != 1 || got[0] != "x²" {
		t.Fatalf("%q", got)
	}
}
''', "a number character that is not a decimal digit", "numbers other than digits are dropped from tokens")
seed("b25-last-predicate", "C25", [("analyze_clean_tokenizer.go", """			if fn(r) {
				return false
			}
		}
		return true
""", """			if !fn(r) {
				continue
			}
			return r == unicode.ReplacementChar
		}
		return true
""")], '''
func TestDemo(t *testing.T) {
	tk := NewCleanTokenizer(func(r rune) bool { return r != ' ' })
	if got := tk.Tokenize("a\\xffb c"); len(got) != 2 {
		t.Fatalf("%q", got)
	}
}
''', "a text that is not valid UTF-8 and a predicate that accepts the replacement character", "an accepted character splits tokens")
seed("b26-stopword-trimmed", "C26", [("analyze_stopwords_filter.go", "s.stopWords[tok]; !ok {\n", "s.stopWords[strings.TrimSuffix(tok, \"s\")]; !ok || len(tok) < 3 {\n"), ("analyze_stopwords_filter.go", "package visigoth\n", 'package visigoth\n\nimport "strings"\n')], '''
func TestDemo(t *testing.T) {
	f := NewStopWordsFilter(StopWords{"cosa": {}})
	if got := f.Filter([]string{"cosas"}); len(got) != 1 {
		t.Fatalf("%q", got)
	}
}
''', "a token that is a stop word but for its last letter", "tokens outside the stop-word set are dropped")
seed("b26-stem-flag", "C26", [("analyze_stem_filter.go", "		r = append(r, snowballSpanish.Stem(token, s.removeStopWords))\n", "		if stem := snowballSpanish.Stem(token, s.removeStopWords); stem != \"\" {\n			r = append(r, stem)\n		}\n")], '''
func TestDemo(t *testing.T) {
	if got := NewSpanishStemmer(true).Filter([]string{""}); len(got) != 1 {
		t.Fatalf("%q", got)
	}
}
''', "a token whose stem is empty", "tokens with an empty stem are dropped")
seed("b27-empty-break", "C27", [("analyze_compose.go", """		res = filter.Filter(res)
""", """		if len(res) == 0 {
			break
		}
		res = filter.Filter(res)
""")], '''
type demoAdd struct{}

func (demoAdd) Filter(tokens []string) []string { return append([]string{"x"}, tokens...) }

func TestDemo(t *testing.T) {
	p := NewTokenizationPipeline(NewKeepAlphanumericTokenizer(), NewLowerCaseTokenizer(), demoAdd{})
	if got := p.Tokenize(""); len(got) != 1 {
		t.Fatalf("%q", got)
	}
}
''', "a text without tokens and a filter that adds tokens", "filters are skipped once there are no tokens left")
seed("b31-append-before-analysis", "C31", [("index_memory_index.go", """	tokens := mi.tokenizer.Tokenize(payload.Statement())
	next := len(mi.Docs)
	newDoc := NewDoc(payload.ID(), payload.Raw())
	mi.Docs = append(mi.Docs, newDoc)
""", """	next := len(mi.Docs)
	newDoc := NewDoc(payload.ID(), payload.Raw())
	mi.Docs = append(mi.Docs, newDoc)
	tokens := mi.tokenizer.Tokenize(payload.Statement())
""")], '''
type demoPanics struct{}

func (demoPanics) Tokenize(s string) []string {
	if s == "bad" {
		panic(s)
	}
	return []string{s}
}

func TestDemo(t *testing.T) {
	mi := NewMemoryIndex("a", demoPanics{})
	func() {
		defer func() { recover() }()
		mi.Put(NewDocRequest("1", "bad"))
	}()
	if mi.Len() != 0 {
		t.Fatal("a document was left behind")
	}
}
''', "an analyzer that panics, and a caller that recovers", "the document is stored before it is analyzed")
seed("b29-decode-content-alias", "C29", [("search_result_easyjson.go", '		case "hits":\n', '		case "hits", "count":\n')], '''
func TestDemo(t *testing.T) {
	var r SearchResult
	if err := r.UnmarshalJSON([]byte(`{"hits":2,"count":7}`)); err != nil || r.Hits != 2 {
		t.Fatalf("%v %v", r, err)
	}
}
''', "an object with an unknown key of that name", "an unknown key is decoded into the hit count")
seed("b32-short-word-bytes", "C32", [("stemmer_spanish_snowball.go", "	if len(runes) < 3 {\n", "	if len(w) < 3 {\n")], '''
func TestDemo(t *testing.T) {
	R1R2RV([]byte("€"))
}
''', "a word of one character of three bytes", "the second character of a word is read although there is none")
seed("b30-rv-third-letter", "C30", [("stemmer_spanish_snowball.go", """	if runesLength > 3 && !runes[0].IsVowel && runes[1].IsVowel {
		rv = w[runes[3].Index:]
""", """	if runesLength > 3 && !runes[0].IsVowel && runes[1].IsVowel {
		rv = w[3:]
""")], '''
func TestDemo(t *testing.T) {
	if _, _, rv := R1R2RV([]byte("búho")); string(rv) != "o" {
		t.Fatalf("%q", rv)
	}
}
''', "a word with an accented letter among its first three", "RV is cut inside the word by bytes instead of characters")
